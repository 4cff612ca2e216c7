// DateAdd is compiled where it is included (Execute.cpp and the runtime module).
#define EXECUTE_INCLUDE
#include "QueryEngine/DateAdd.cpp"
