// -DZP=Zera|MsgPack|Flex|CBOR selects the protocol under test.
#pragma once
#include "doc.h"
#define PROTO_Zera 1
#define PROTO_MsgPack 2
#define PROTO_Flex 3
#define PROTO_CBOR 4
#define PROTO_JSON 5
#define PROTO_CAT2(a, b) a##b
#define PROTO_CAT(a, b) PROTO_CAT2(a, b)
#define PROTO_ID PROTO_CAT(PROTO_, ZP)
#if PROTO_ID == PROTO_Zera
#include <zerialize/protocols/zera.hpp>
#elif PROTO_ID == PROTO_MsgPack
#include <zerialize/protocols/msgpack.hpp>
#elif PROTO_ID == PROTO_Flex
#include <zerialize/protocols/flex.hpp>
#elif PROTO_ID == PROTO_JSON
#include <zerialize/protocols/json.hpp>
#elif PROTO_ID == PROTO_CBOR
#include <zerialize/protocols/cbor.hpp>
#endif
using P = z::ZP;
using R = P::Deserializer;
constexpr bool kFlex = PROTO_ID == PROTO_Flex, kZera = PROTO_ID == PROTO_Zera, kMp = PROTO_ID == PROTO_MsgPack;
constexpr bool kOrdered = !kFlex;
