# Included by /repo's project() call (CMAKE_PROJECT_INCLUDE). Adds, without an edit to /repo, the
# declaration-only Arrow stub (so that QueryEngine builds) and the harnesses of /verif.
if(NOT CMAKE_SOURCE_DIR STREQUAL CMAKE_CURRENT_SOURCE_DIR)
  return()
endif()
get_filename_component(VERIF_ROOT "${CMAKE_CURRENT_LIST_DIR}" DIRECTORY)
if(VERIF_FLAVOR STREQUAL "asan")
  add_compile_options(-fsanitize=address -fno-omit-frame-pointer)
  add_link_options(-fsanitize=address)
endif()
if(VERIF_FLAVOR STREQUAL "mc")  # instrumented, but linked with the controlled scheduler instead of the TSan runtime
  add_compile_options(-fsanitize=thread)
endif()
include_directories(BEFORE ${VERIF_ROOT}/stub)

function(verif_deferred)
  # SchemaJson.cpp needs Arrow through ResultSetRegistry; the stub server needs nothing.
  set_target_properties(Calcite PROPERTIES SOURCES CalciteStub.cpp)
  get_target_property(s ResultSet SOURCES)
  list(REMOVE_ITEM s ArrowResultSet.cpp ArrowResultSetConverter.cpp)
  set_target_properties(ResultSet PROPERTIES SOURCES "${s}")
  target_sources(ResultSetRegistry PRIVATE ${VERIF_ROOT}/stub/arrow_stub.cpp)
  include(${VERIF_ROOT}/harness/targets.cmake)
endfunction()
cmake_language(DEFER CALL verif_deferred)
