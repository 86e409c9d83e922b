ll2_check(C03 asan PKGS core FLAGS ${ASAN})
ll2_check(C01 asan PKGS core FLAGS ${ASAN})
ll2_check(C02 asan PKGS core FLAGS ${ASAN})
ll2_check(C04 asan PKGS core FLAGS ${ASAN})
ll2_check(C05 asan PKGS core FLAGS ${ASAN})
ll2_check(C06 asan PKGS core FLAGS ${ASAN})
ll2_check(C07 asan PKGS core FLAGS ${ASAN})
ll2_check(C08 asan PKGS core FLAGS ${ASAN})
ll2_check(C09 asan PKGS core FLAGS ${ASAN})
ll2_check(C31 asan PKGS core FLAGS ${ASAN})
ll2_check(C32 asan PKGS core traffic_rules routing FLAGS ${ASAN})
ll2_check(C10 asan PKGS core FLAGS ${ASAN})
ll2_check(C11 asan PKGS core io projection FLAGS ${ASAN})
ll2_check(C12 asan PKGS core io projection FLAGS ${ASAN})
ll2_check(C14 asan PKGS core io projection FLAGS ${ASAN})
ll2_check(C13 asan PKGS core io projection FLAGS ${ASAN})
ll2_check(C30 asan PKGS core io projection FLAGS ${ASAN})
ll2_check(C15 asan PKGS core io projection FLAGS ${ASAN})
ll2_check(C16 asan PKGS core traffic_rules FLAGS ${ASAN})
ll2_check(C17 asan PKGS core traffic_rules FLAGS ${ASAN})
ll2_check(C18 asan PKGS core traffic_rules FLAGS ${ASAN})
ll2_check(C19 asan PKGS core traffic_rules routing FLAGS ${ASAN})
ll2_check(C20 asan PKGS core traffic_rules routing FLAGS ${ASAN})
ll2_check(C21 asan PKGS core traffic_rules routing FLAGS ${ASAN})
ll2_check(C28 asan PKGS core traffic_rules routing FLAGS ${ASAN})
ll2_check(C29 asan PKGS core traffic_rules routing FLAGS ${ASAN})
ll2_check(C22 asan PKGS core traffic_rules routing FLAGS ${ASAN})
ll2_check(C23 asan PKGS core traffic_rules routing FLAGS ${ASAN})
ll2_check(C24 asan PKGS core traffic_rules matching FLAGS ${ASAN})
ll2_check(C25 asan PKGS core io projection traffic_rules routing validation FLAGS ${ASAN})
ll2_check(C26 tsan PKGS core io projection traffic_rules routing matching FLAGS ${TSAN})

# C27: the Python package, built from /repo's python_api and the ASan objects, driven by py/C27.py
find_package(Python3 3 REQUIRED COMPONENTS Interpreter Development.Module)
find_package(Boost 1.70 REQUIRED COMPONENTS python${Python3_VERSION_MAJOR}${Python3_VERSION_MINOR})
set(PYPKG ${CMAKE_BINARY_DIR}/py/lanelet2)
add_library(ll2py_native SHARED EXCLUDE_FROM_ALL)
foreach(p core io projection traffic_rules routing matching)
  target_sources(ll2py_native PRIVATE $<TARGET_OBJECTS:asan_${p}>)
endforeach()
target_link_options(ll2py_native PRIVATE ${ASAN})
target_link_libraries(ll2py_native PRIVATE Boost::serialization Boost::filesystem pugixml::pugixml
                      ${GeographicLib_LIBRARIES} Threads::Threads)
set_target_properties(ll2py_native PROPERTIES LIBRARY_OUTPUT_DIRECTORY ${PYPKG})
add_custom_target(C27 ALL)
file(GLOB pysrcs CONFIGURE_DEPENDS ${LL2_ROOT}/lanelet2_python/python_api/*.cpp)
foreach(src ${pysrcs})
  get_filename_component(m ${src} NAME_WE)
  add_library(ll2py_${m} MODULE EXCLUDE_FROM_ALL ${src})
  foreach(q ${PKGS})
    target_include_directories(ll2py_${m} PRIVATE ${LL2_ROOT}/lanelet2_${q}/include)
  endforeach()
  target_include_directories(ll2py_${m} PRIVATE ${LL2_ROOT}/lanelet2_python/include)
  target_include_directories(ll2py_${m} SYSTEM PRIVATE /usr/include/eigen3)
  target_compile_definitions(ll2py_${m} PRIVATE PYTHON_API_MODULE_NAME=${m})
  target_compile_options(ll2py_${m} PRIVATE ${ASAN} -O0 -g0)
  target_link_options(ll2py_${m} PRIVATE ${ASAN})
  target_link_libraries(ll2py_${m} PRIVATE ll2py_native Boost::python${Python3_VERSION_MAJOR}${Python3_VERSION_MINOR} Python3::Module)
  set_target_properties(ll2py_${m} PROPERTIES PREFIX "" OUTPUT_NAME ${m} LIBRARY_OUTPUT_DIRECTORY ${PYPKG}
                        BUILD_RPATH ${PYPKG})
  add_dependencies(C27 ll2py_${m})
endforeach()
configure_file(${LL2_ROOT}/lanelet2_python/typings/lanelet2/__init__.pyi ${PYPKG}/__init__.py COPYONLY)
