// The element/boxed types of the library as data: sizes, boxing, boundary values.
#pragma once
#include "dn.h"
static const DataType elemTypes[] = { Int32Type, ObjectType, BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType, StringType };
enum { NTYPES = 16 };
static inline const char* typeName(DataType t) {
  static const char* n[] = { "Null", "Object", "Boolean", "Char", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Single", "Double", "Decimal", "DateTime", "TimeSpan", "String" };
  return n[t];
}
static inline int sizeOf(DataType t) {
  switch (t) {
  case BooleanType: return sizeof(Boolean); case CharType: return sizeof(Char); case SByteType: case ByteType: return 1;
  case Int16Type: case UInt16Type: return 2; case Int32Type: case UInt32Type: case SingleType: return 4; default: return 8; }
}
static inline bool isPrimitive(DataType t) { return t != ObjectType && t != StringType && t != DateTimeType && t != TimeSpanType && t != DecimalType && t != NullType; }
