#pragma once
namespace arrow::ipc {
class DictionaryMemo {};
class DictionaryFieldMapper;
}
