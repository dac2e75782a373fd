# Included after project() through CMAKE_PROJECT_alsvinn_INCLUDE.
# The project names targets of its optional submodules even when they are off.
foreach(name fbm fbmpy)
  if(NOT TARGET FBM::${name})
    add_library(FBM::${name} INTERFACE IMPORTED GLOBAL)
  endif()
endforeach()
if(NOT TARGET qmc_generators)
  add_custom_target(qmc_generators)
endif()
set(VERIF_CMAKE_DIR ${CMAKE_CURRENT_LIST_DIR})
cmake_language(EVAL CODE "cmake_language(DEFER CALL include [[${CMAKE_CURRENT_LIST_DIR}/deferred.cmake]])")
