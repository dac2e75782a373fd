# Included into the alsvinn build by cmake/deferred.cmake (see lib/vf/build.py).
add_library(alsrec SHARED ${VERIF_HARNESS_DIR}/recorder.c)
target_link_libraries(alsrec MPI::MPI_C)
set_target_properties(alsrec PROPERTIES LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/verif)
add_library(alspmpi SHARED ${VERIF_HARNESS_DIR}/pmpi.c)
target_link_libraries(alspmpi MPI::MPI_C)
set_target_properties(alspmpi PROPERTIES LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/verif)
add_executable(alsmon ${VERIF_HARNESS_DIR}/alsmon.cpp)
get_target_property(_inc alsvinncli INCLUDE_DIRECTORIES)
target_link_libraries(alsmon alsfvm alsutils)
set_target_properties(alsmon PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/verif CXX_STANDARD 17)
add_library(alsdist SHARED ${VERIF_HARNESS_DIR}/dist.c)
set_target_properties(alsdist PROPERTIES LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/verif)
add_library(alsio SHARED ${VERIF_HARNESS_DIR}/iofault.c)
target_link_libraries(alsio ${CMAKE_DL_LIBS})
set_target_properties(alsio PROPERTIES LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/verif)
add_library(alsgomp SHARED ${VERIF_HARNESS_DIR}/gomp.c)
find_package(Threads REQUIRED)
target_link_libraries(alsgomp Threads::Threads)
set_target_properties(alsgomp PROPERTIES LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/verif)
