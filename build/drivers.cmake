# drivers of /verif, built against the targets of the project itself
set(VERIF_DRIVERS "${VERIF_BUILD_DIR}/../drivers")
function(verif_driver name)
  cmake_parse_arguments(A "" "" "SRC;LIBS;FLAGS" ${ARGN})
  set(src "")
  foreach(s ${A_SRC})
    if(IS_ABSOLUTE "${s}")
      list(APPEND src "${s}")
    else()
      list(APPEND src "${VERIF_DRIVERS}/${s}")
    endif()
  endforeach()
  add_executable(${name} EXCLUDE_FROM_ALL ${src})
  target_compile_features(${name} PRIVATE cxx_std_20)
  target_compile_options(${name} PRIVATE -w ${A_FLAGS})
  target_include_directories(${name} PRIVATE "${VERIF_DRIVERS}" "${CMAKE_SOURCE_DIR}/include")
  target_link_libraries(${name} PRIVATE ${A_LIBS} pthread)
endfunction()

verif_driver(drv_sort SRC drv_sort.cpp LIBS hibp flat_file fmt::fmt)
verif_driver(drv_diff SRC drv_diff.cpp LIBS diffutils hibp flat_file fmt::fmt)
verif_driver(drv_rec SRC drv_rec.cpp LIBS hibp fmt::fmt)
verif_driver(drv_arr SRC drv_arr.cpp LIBS hibp)
verif_driver(drv_arr_avx2 SRC drv_arr.cpp LIBS hibp FLAGS -mavx2)
verif_driver(drv_arr_avx512 SRC drv_arr.cpp LIBS hibp FLAGS -mavx512f -mavx512bw -mavx2)
verif_driver(drv_ntlm SRC drv_ntlm.cpp LIBS ntlm)
verif_driver(drv_md4 SRC drv_md4.cpp LIBS ntlm)
verif_driver(drv_flat SRC drv_flat.cpp LIBS hibp flat_file fmt::fmt)
verif_driver(drv_toc SRC drv_toc.cpp LIBS toc hibp flat_file fmt::fmt)
add_library(fault SHARED EXCLUDE_FROM_ALL "${VERIF_DRIVERS}/fault.c")
target_compile_options(fault PRIVATE -w)
target_link_libraries(fault PRIVATE dl pthread)
file(GLOB DNL_SOURCES "${CMAKE_SOURCE_DIR}/src/dnl/*.cpp")
verif_driver(dlsim SRC dlsim.cpp ${DNL_SOURCES} LIBS hibp flat_file fmt::fmt event)
add_executable(peak EXCLUDE_FROM_ALL "${VERIF_DRIVERS}/peak.c")
