# included right after project() of /repo
include(/opt/vp/support/hook.cmake)
add_compile_options(-w -Wno-error)
cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL include /verif/pbt/harness/harness.cmake)
