#pragma once
#define ARROW_PREDICT_FALSE(x) (x)
#define ARROW_CONCAT_IMPL(x, y) x##y
#define ARROW_CONCAT(x, y) ARROW_CONCAT_IMPL(x, y)
