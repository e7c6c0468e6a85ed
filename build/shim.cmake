# Injected into /repo's own CMakeLists.txt after project(hibp) (-DCMAKE_PROJECT_hibp_INCLUDE).
# The git submodules under ext/ are empty here: take the libraries of the system, and for
# hash-library (sha1.h) a stand-in that uses OpenSSL. Then add the drivers of /verif.

set(VERIF_BUILD_DIR "${CMAKE_CURRENT_LIST_DIR}")

function(add_subdirectory dir)
  if(NOT dir MATCHES "^ext/" OR EXISTS "${CMAKE_CURRENT_SOURCE_DIR}/${dir}/CMakeLists.txt")
    _add_subdirectory(${ARGV})
  elseif(dir STREQUAL "ext/CLI11")
    find_package(CLI11 REQUIRED)
    _add_library(CLI11 INTERFACE)
    target_link_libraries(CLI11 INTERFACE CLI11::CLI11)
  elseif(dir STREQUAL "ext/fmt")
    find_package(fmt REQUIRED)
  elseif(dir STREQUAL "ext/restinio/dev/restinio")
    find_package(restinio REQUIRED)
    _add_library(restinio INTERFACE)
    target_link_libraries(restinio INTERFACE restinio::restinio)
  elseif(dir STREQUAL "ext/restinio/dev/nodejs/llhttp")
  elseif(dir STREQUAL "ext/restinio/dev/expected-lite")
    _add_library(expected-lite INTERFACE)
  else()
    message(FATAL_ERROR "no replacement for ${dir}")
  endif()
endfunction()

function(add_library name)
  if(name STREQUAL "sha1" AND NOT EXISTS "${CMAKE_CURRENT_SOURCE_DIR}/ext/hash-library/sha1.cpp")
    _add_library(sha1 INTERFACE)
    target_include_directories(sha1 INTERFACE "${VERIF_BUILD_DIR}/sha1")
    target_link_libraries(sha1 INTERFACE crypto)
  else()
    _add_library(${ARGV})
  endif()
endfunction()

function(add_custom_target name)
  if(name STREQUAL "all_tests")
    _add_custom_target(all_tests)
  else()
    _add_custom_target(${ARGV})
  endif()
endfunction()

cmake_language(DEFER CALL include "${VERIF_BUILD_DIR}/drivers.cmake")
