# Boost 1.76 renamed boost::dll::import to import_symbol; apt has 1.83.
if(EXISTS ${CMAKE_SOURCE_DIR}/alsfvm/src/io/DLLWriter.cpp)
set_source_files_properties(${CMAKE_SOURCE_DIR}/alsfvm/src/io/DLLWriter.cpp
  TARGET_DIRECTORY alsfvm PROPERTIES COMPILE_DEFINITIONS import=import_symbol)
endif()
if(EXISTS ${CMAKE_SOURCE_DIR}/alsuq/src/distribution/DLLDistribution.cpp)
set_source_files_properties(${CMAKE_SOURCE_DIR}/alsuq/src/distribution/DLLDistribution.cpp
  TARGET_DIRECTORY alsuq PROPERTIES COMPILE_DEFINITIONS import=import_symbol)
endif()
# Unity builds (only a build-time saving, see lib/build.py, which falls back to
# a plain build) do not work for files whose using-directives or file-scope
# names clash: those stay units of their own.
foreach(_t alsutils alsfvm alsuq)
  file(GLOB_RECURSE _all ${CMAKE_SOURCE_DIR}/${_t}/*.cpp)
  foreach(_f ${_all})
    file(STRINGS ${_f} _hit REGEX "^ *using namespace|^std::mutex|^static |DLL|^namespace *{|[^a-zA-Z0-9_:.]log *\\(|equation_list.hpp" LIMIT_COUNT 1)
    if(_hit OR _f MATCHES "DLL|/Python|NumericalFluxCPU")
      set_source_files_properties(${_f} TARGET_DIRECTORY ${_t} PROPERTIES SKIP_UNITY_BUILD_INCLUSION ON)
    endif()
  endforeach()
endforeach()
if(VERIF_HARNESS_DIR)
  include(${VERIF_HARNESS_DIR}/harness.cmake)
endif()
