set(CMAKE_AUTOMOC OFF)
set(PBT_DIR /verif/pbt/harness)
find_package(Protobuf REQUIRED)
find_package(Qt5 COMPONENTS Core REQUIRED)

# vp_generate(<out var> <out dir> <options> <proto>...)  runs the code generator of the tree under test
function(vp_generate out dir opts)
    set(srcs "")
    foreach(p ${ARGN})
        get_filename_component(n ${p} NAME_WE)
        get_filename_component(pd ${p} DIRECTORY)
        add_custom_command(OUTPUT ${dir}/${n}.qpb.h ${dir}/${n}.qpb.cpp ${dir}/moc_${n}.cpp
            COMMAND ${CMAKE_COMMAND} -E make_directory ${dir}
            COMMAND ${CMAKE_COMMAND} -E env "QT_PROTOBUF_OPTIONS=${opts}" ASAN_OPTIONS=detect_leaks=0 protoc
                --plugin=protoc-gen-qtprotobufgen=$<TARGET_FILE:qtprotobufgen> --qtprotobufgen_out=${dir} -I${pd} -I/usr/include ${p}
            COMMAND Qt5::moc ${dir}/${n}.qpb.h -o ${dir}/moc_${n}.cpp
            DEPENDS qtprotobufgen ${p})
        list(APPEND srcs ${dir}/${n}.qpb.cpp ${dir}/moc_${n}.cpp)
    endforeach()
    set(${out} ${srcs} PARENT_SCOPE)
endfunction()

add_library(vp_core STATIC ${PBT_DIR}/pbt.cpp ${PBT_DIR}/val.cpp)
target_link_libraries(vp_core protobuf::libprotobuf)
target_include_directories(vp_core PUBLIC ${PBT_DIR})

# every edge of the library calls __sanitizer_cov_trace_pc (pbt.cpp), which can pause the thread there
foreach(t Protobuf Grpc)
    if(TARGET ${t})
        target_compile_options(${t} PRIVATE -fsanitize-coverage=trace-pc)
    endif()
endforeach()

# ---- fixed schema
set(FIX ${CMAKE_BINARY_DIR}/vp/fixed)
file(MAKE_DIRECTORY ${FIX})
execute_process(COMMAND python3 ${PBT_DIR}/../schema.py ${FIX} RESULT_VARIABLE rc)
if(rc)
    message(FATAL_ERROR "schema.py failed")
endif()
vp_generate(FIX_SRC ${FIX} SINGLE ${FIX}/vpext.proto ${FIX}/vpmain.proto)
add_library(vp_fixed STATIC ${FIX_SRC} ${FIX}/vp_bridge.cpp)
target_include_directories(vp_fixed PUBLIC ${FIX})
target_link_libraries(vp_fixed PUBLIC vp_core Protobuf Qt5::Core Qt5::Qml)

function(vp_harness name)
    add_executable(${name} ${PBT_DIR}/main.cpp ${PBT_DIR}/common.cpp ${ARGN})
    target_compile_definitions(${name} PRIVATE VP_PROTO_DIR="${FIX}")
    target_link_libraries(${name} vp_fixed)
endfunction()
vp_harness(h_wire ${PBT_DIR}/wire.cpp)
vp_harness(h_obj ${PBT_DIR}/obj.cpp)

# ---- Qt types, well-known types
add_custom_command(OUTPUT ${FIX}/qt/vpqt.qpb.h ${FIX}/qt/vpqt.qpb.cpp ${FIX}/qt/moc_vpqt.cpp
    COMMAND ${CMAKE_COMMAND} -E make_directory ${FIX}/qt
    COMMAND ${CMAKE_COMMAND} -E env "QT_PROTOBUF_OPTIONS=SINGLE" ASAN_OPTIONS=detect_leaks=0 protoc
        --plugin=protoc-gen-qtprotobufgen=$<TARGET_FILE:qtprotobufgen> --qtprotobufgen_out=${FIX}/qt -I${FIX} -I${CMAKE_SOURCE_DIR}/src/qttypes ${FIX}/vpqt.proto
    COMMAND Qt5::moc ${FIX}/qt/vpqt.qpb.h -o ${FIX}/qt/moc_vpqt.cpp
    DEPENDS qtprotobufgen ${FIX}/vpqt.proto)
add_executable(h_types ${PBT_DIR}/main.cpp ${PBT_DIR}/common.cpp ${PBT_DIR}/types.cpp ${FIX}/wkt_bridge.cpp ${FIX}/qt/vpqt.qpb.cpp ${FIX}/qt/moc_vpqt.cpp)
target_compile_definitions(h_types PRIVATE VP_PROTO_DIR="${FIX}")
target_include_directories(h_types PRIVATE ${FIX}/qt)
target_link_libraries(h_types vp_fixed ProtobufQtTypes ProtobufWellKnownTypes Qt5::Gui)

# ---- gRPC
add_custom_command(OUTPUT ${FIX}/rpc/vprpc.qpb.h ${FIX}/rpc/vprpc.qpb.cpp ${FIX}/rpc/vprpc_grpc.qpb.h ${FIX}/rpc/vprpc_grpc.qpb.cpp ${FIX}/rpc/moc_vprpc.cpp ${FIX}/rpc/moc_vprpc_grpc.cpp
    COMMAND ${CMAKE_COMMAND} -E make_directory ${FIX}/rpc
    COMMAND ${CMAKE_COMMAND} -E env "QT_PROTOBUF_OPTIONS=SINGLE:QML" ASAN_OPTIONS=detect_leaks=0 protoc
        --plugin=protoc-gen-qtprotobufgen=$<TARGET_FILE:qtprotobufgen> --qtprotobufgen_out=${FIX}/rpc -I${PBT_DIR} ${PBT_DIR}/vprpc.proto
    COMMAND Qt5::moc ${FIX}/rpc/vprpc.qpb.h -o ${FIX}/rpc/moc_vprpc.cpp
    COMMAND Qt5::moc ${FIX}/rpc/vprpc_grpc.qpb.h -o ${FIX}/rpc/moc_vprpc_grpc.cpp
    DEPENDS qtprotobufgen ${PBT_DIR}/vprpc.proto)
add_library(vp_rpc STATIC ${FIX}/rpc/vprpc.qpb.cpp ${FIX}/rpc/vprpc_grpc.qpb.cpp ${FIX}/rpc/moc_vprpc.cpp ${FIX}/rpc/moc_vprpc_grpc.cpp)
target_include_directories(vp_rpc PUBLIC ${FIX}/rpc)
target_link_libraries(vp_rpc PUBLIC vp_core Grpc Protobuf Qt5::Core Qt5::Qml Qt5::Network)
add_executable(h_grpc ${PBT_DIR}/main.cpp ${PBT_DIR}/grpc.cpp ${PBT_DIR}/fakenet.cpp)
set_target_properties(h_grpc PROPERTIES ENABLE_EXPORTS ON)
target_link_libraries(h_grpc vp_rpc)
find_package(gRPC QUIET)
add_executable(h_native ${PBT_DIR}/main.cpp ${PBT_DIR}/native.cpp ${PBT_DIR}/fakenet.cpp)
set_target_properties(h_native PROPERTIES ENABLE_EXPORTS ON)
target_link_libraries(h_native vp_rpc grpc++ gpr)

# ---- randomly generated schemas: everything but the generated code itself, as a shared library
add_library(vp_gen SHARED ${PBT_DIR}/main.cpp ${PBT_DIR}/gencommon.cpp ${PBT_DIR}/gensvc.cpp ${PBT_DIR}/wire.cpp ${PBT_DIR}/obj.cpp)
target_link_libraries(vp_gen PUBLIC vp_core Protobuf Grpc Qt5::Core Qt5::Qml Qt5::Network)
add_dependencies(vp_gen qtprotobufgen)
file(GENERATE OUTPUT ${CMAKE_BINARY_DIR}/vp/genflags.txt CONTENT "inc $<JOIN:$<TARGET_PROPERTY:vp_gen,INCLUDE_DIRECTORIES>,\ninc >
lib $<TARGET_FILE:vp_gen>\nlib $<TARGET_FILE:Protobuf>\nlib $<TARGET_FILE:Grpc>\nlib $<TARGET_FILE:Qt5::Qml>\nlib $<TARGET_FILE:Qt5::Network>\nlib $<TARGET_FILE:Qt5::Core>
gen $<TARGET_FILE:qtprotobufgen>\nmoc $<TARGET_FILE:Qt5::moc>\n")

# ---- serializer plugins, registries and threads
function(vp_plugin lib name version proto rating types foreign)
    set(dir ${CMAKE_BINARY_DIR}/vp/plug)
    file(MAKE_DIRECTORY ${dir})
    set(VP_LIB ${lib})
    set(VP_FOREIGN ${foreign})
    set(VP_JSON ${dir}/${lib}.json)
    file(WRITE ${VP_JSON}.in "{\"name\": \"${name}\", \"author\": \"x\", \"version\": ${version}, \"protobufVersion\": ${proto}, \"types\": [${types}], \"rating\": ${rating}}\n")
    configure_file(${VP_JSON}.in ${VP_JSON} COPYONLY)
    configure_file(${PBT_DIR}/plug/vpplug.cpp.in ${dir}/${lib}.cpp @ONLY)
    add_custom_command(OUTPUT ${dir}/${lib}.moc
        COMMAND Qt5::moc -DVP_FOREIGN=${foreign} -I${CMAKE_SOURCE_DIR}/src/protobuf ${dir}/${lib}.cpp -o ${dir}/${lib}.moc
        DEPENDS ${dir}/${lib}.cpp ${VP_JSON})
    add_library(${lib} SHARED ${dir}/${lib}.cpp ${dir}/${lib}.moc)
    target_include_directories(${lib} PRIVATE ${dir})
    target_link_libraries(${lib} PRIVATE Protobuf Qt5::Core Qt5::Qml)
    set_target_properties(${lib} PROPERTIES LIBRARY_OUTPUT_DIRECTORY ${dir})
endfunction()
vp_plugin(vpgood VpGood 2.5 3.0 7 "\"protobuf\", \"json\", \"custom\"" 0)
vp_plugin(vpother "Vp other" 1.25 2.0 -3 "\"custom\", \"extra\"" 0)
vp_plugin(vptwin VpGood 9.0 9.0 9 "\"twin\"" 0)
vp_plugin(vpforeign VpForeign 4.0 4.0 4 "\"protobuf\"" 1)
add_executable(h_reg ${PBT_DIR}/main.cpp ${PBT_DIR}/common.cpp ${PBT_DIR}/reg.cpp)
target_compile_definitions(h_reg PRIVATE VP_PROTO_DIR="${FIX}" VP_PLUG_DIR="${CMAKE_BINARY_DIR}/vp/plug")
target_link_libraries(h_reg vp_fixed pthread)
add_dependencies(h_reg vpgood vpother vptwin vpforeign)

# ---- clients used from other threads
add_executable(h_thr ${PBT_DIR}/main.cpp ${PBT_DIR}/threads.cpp)
target_link_libraries(h_thr vp_rpc pthread)

# ---- QML
add_executable(h_qml ${PBT_DIR}/main.cpp ${PBT_DIR}/qml.cpp)
target_link_libraries(h_qml vp_rpc)
if(TARGET grpcquickplugin)
    add_dependencies(h_qml grpcquickplugin protobufquickplugin)
endif()
target_compile_definitions(h_qml PRIVATE VP_GRPC_QUICK="${CMAKE_BINARY_DIR}/src/grpc/quick" VP_PROTOBUF_QUICK="${CMAKE_BINARY_DIR}/src/protobuf/quick")
