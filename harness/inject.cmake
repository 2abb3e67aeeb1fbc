# Included right after project(QLever). It first applies the dependency
# redirection that the normal build uses and then appends our own harness
# targets to the project, so that they are compiled with the project's flags
# and linked against the project's libraries.
include(/opt/vp/cmake/deps.cmake)
set(VERIF_HARNESS_DIR ${CMAKE_CURRENT_LIST_DIR})
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR}
               CALL include ${VERIF_HARNESS_DIR}/targets.cmake)
