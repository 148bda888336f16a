// stands in for the header CMake generates: the factory is linked statically into the simulator
#pragma once
#define HPP_PROTO_DYNAMIC_MESSAGE_EXPORT
#define HPP_PROTO_DYNAMIC_MESSAGE_NO_EXPORT
