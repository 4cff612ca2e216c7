# Harness executables; included at the end of /repo's top-level CMakeLists.txt.
set(H ${VERIF_ROOT}/harness)
function(verif_exe name)
  cmake_parse_arguments(A "" "" "SRC;LIBS" ${ARGN})
  list(TRANSFORM A_SRC PREPEND ${H}/)
  add_executable(${name} ${A_SRC})
  target_include_directories(${name} PRIVATE ${CMAKE_SOURCE_DIR}/omniscidb ${H})
  target_link_libraries(${name} ${A_LIBS})
  set_target_properties(${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/omniscidb/verif)
endfunction()
set(QE QueryEngine QueryBuilder ResultSetRegistry ResultSet DataMgr IR SchemaMgr ConfigBuilder Shared Logger)
set(MC mc.cpp)
if(VERIF_FLAVOR STREQUAL "mc")
  add_library(mcrt SHARED ${H}/mc.cpp ${H}/mcsched.cpp)
  target_compile_options(mcrt PRIVATE -fno-sanitize=thread -O2)
  target_link_options(mcrt PRIVATE -Wl,--version-script=${H}/mcrt.map)
  target_link_libraries(mcrt dl)
  set(WRAP "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free")
  function(verif_mc name)
    verif_exe(${name} ${ARGN})
    target_link_options(${name} PRIVATE ${WRAP})
    set_target_properties(${name} PROPERTIES ENABLE_EXPORTS ON)
  endfunction()
  verif_mc(h_conc_buf SRC h_conc_buf.cpp LIBS mcrt DataMgr IR Shared Logger)
  verif_mc(h_conc_dict SRC h_conc_dict.cpp LIBS mcrt StringDictionary Shared Logger TBB::tbb)
  return()
endif()
if(VERIF_FLAVOR STREQUAL "main")
  verif_exe(e2e_smoke SRC e2e_smoke.cpp LIBS ${QE})
  verif_exe(h_sort SRC h_sort.cpp ${MC} LIBS ${QE})
  verif_exe(h_window SRC h_window.cpp ${MC} LIBS ${QE})
  verif_exe(h_join SRC h_join.cpp ${MC} LIBS ${QE})
  verif_exe(h_compose SRC h_compose.cpp ${MC} LIBS ${QE})
  verif_exe(h_agg SRC h_agg.cpp ${MC} LIBS ${QE})
  verif_exe(h_expr SRC h_expr.cpp ${MC} LIBS ${QE})
endif()
verif_exe(h_strdict SRC h_strdict.cpp inline_threads.cpp ${MC} LIBS StringDictionary Shared Logger TBB::tbb)
verif_exe(h_bufmgr SRC h_bufmgr.cpp inline_threads.cpp ${MC} LIBS DataMgr IR Shared Logger)
verif_exe(h_encoder SRC h_encoder.cpp ${MC} LIBS DataMgr IR Utils Shared Logger TBB::tbb)
verif_exe(h_calendar SRC h_calendar.cpp dateadd_shim.cpp ${MC} LIBS IR Utils Shared Logger)
verif_exe(h_strings SRC h_strings.cpp ${MC} LIBS Utils Shared Logger)
verif_exe(h_ir SRC h_ir.cpp ${MC} LIBS IR SchemaMgr Shared Logger)
verif_exe(h_result SRC h_result.cpp inline_threads.cpp ${MC} LIBS ResultSet StringDictionary IR Shared Logger TBB::tbb)
verif_exe(h_runtime SRC h_runtime.cpp hashjoincpu_shim.cpp inline_threads.cpp ${MC} LIBS ResultSet StringDictionary IR Shared Logger TBB::tbb)
set(RT ${CMAKE_SOURCE_DIR}/omniscidb/QueryEngine)
target_sources(h_runtime PRIVATE ${RT}/MurmurHash.cpp ${RT}/DynamicWatchdog.cpp ${RT}/QuantileRuntime.cpp
  ${RT}/RuntimeFunctions.cpp ${RT}/JoinHashTable/Runtime/HashJoinRuntime.cpp)
