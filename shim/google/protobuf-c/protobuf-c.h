/* the part of protobuf-c that libmy/ubuf-pb.h uses (the library is not installed here) */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct ProtobufCBuffer ProtobufCBuffer;
struct ProtobufCBuffer { void (*append)(ProtobufCBuffer *buffer, size_t len, const uint8_t *data); };
