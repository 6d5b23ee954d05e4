// Entry points into the C++ runtime of /repo: only its public interface is used, nothing is re-implemented.
#include <new>

#include "zserio/BitFieldUtil.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/BitSizeOfCalculator.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/FloatUtil.h"

using namespace zserio;

extern "C"
{

size_t h_reader_size() { return sizeof(BitStreamReader); }
size_t h_writer_size() { return sizeof(BitStreamWriter); }

void h_reader_init(void* mem, const uint8_t* buf, size_t bytes, size_t bits)
{
    new (mem) BitStreamReader(Span<const uint8_t>(buf, bytes), bits);
}
void h_reader_init_bytes(void* mem, const uint8_t* buf, size_t bytes) { new (mem) BitStreamReader(buf, bytes); }
void h_reader_init_bits(void* mem, const uint8_t* buf, size_t bits) { new (mem) BitStreamReader(buf, bits, BitsTag()); }
void h_reader_set(BitStreamReader* r, size_t pos) { r->setBitPosition(pos); }
size_t h_reader_get(BitStreamReader* r) { return r->getBitPosition(); }
size_t h_reader_bits(BitStreamReader* r) { return r->getBufferBitSize(); }
void h_reader_align(BitStreamReader* r, size_t a) { r->alignTo(a); }
uint32_t h_readBits(BitStreamReader* r, uint8_t n) { return r->readBits(n); }
uint64_t h_readBits64(BitStreamReader* r, uint8_t n) { return r->readBits64(n); }
int32_t h_readSignedBits(BitStreamReader* r, uint8_t n) { return r->readSignedBits(n); }
int64_t h_readSignedBits64(BitStreamReader* r, uint8_t n) { return r->readSignedBits64(n); }
bool h_readBool(BitStreamReader* r) { return r->readBool(); }
int16_t h_readVarInt16(BitStreamReader* r) { return r->readVarInt16(); }
int32_t h_readVarInt32(BitStreamReader* r) { return r->readVarInt32(); }
int64_t h_readVarInt64(BitStreamReader* r) { return r->readVarInt64(); }
int64_t h_readVarInt(BitStreamReader* r) { return r->readVarInt(); }
uint16_t h_readVarUInt16(BitStreamReader* r) { return r->readVarUInt16(); }
uint32_t h_readVarUInt32(BitStreamReader* r) { return r->readVarUInt32(); }
uint64_t h_readVarUInt64(BitStreamReader* r) { return r->readVarUInt64(); }
uint64_t h_readVarUInt(BitStreamReader* r) { return r->readVarUInt(); }
uint32_t h_readVarSize(BitStreamReader* r) { return r->readVarSize(); }
float h_readFloat16(BitStreamReader* r) { return r->readFloat16(); }
float h_readFloat32(BitStreamReader* r) { return r->readFloat32(); }
double h_readFloat64(BitStreamReader* r) { return r->readFloat64(); }

void h_writer_init(void* mem, uint8_t* buf, size_t bytes, size_t bits)
{
    new (mem) BitStreamWriter(Span<uint8_t>(buf, bytes), bits);
}
void h_writer_init_bytes(void* mem, uint8_t* buf, size_t bytes) { new (mem) BitStreamWriter(buf, bytes); }
void h_writer_init_bits(void* mem, uint8_t* buf, size_t bits) { new (mem) BitStreamWriter(buf, bits, BitsTag()); }
void h_writer_set(BitStreamWriter* w, size_t pos) { w->setBitPosition(pos); }
size_t h_writer_get(BitStreamWriter* w) { return w->getBitPosition(); }
size_t h_writer_bits(BitStreamWriter* w) { return w->getBufferBitSize(); }
void h_writer_align(BitStreamWriter* w, size_t a) { w->alignTo(a); }
void h_writeBits(BitStreamWriter* w, uint32_t v, uint8_t n) { w->writeBits(v, n); }
void h_writeBits64(BitStreamWriter* w, uint64_t v, uint8_t n) { w->writeBits64(v, n); }
void h_writeSignedBits(BitStreamWriter* w, int32_t v, uint8_t n) { w->writeSignedBits(v, n); }
void h_writeSignedBits64(BitStreamWriter* w, int64_t v, uint8_t n) { w->writeSignedBits64(v, n); }
void h_writeBool(BitStreamWriter* w, bool v) { w->writeBool(v); }
void h_writeVarInt16(BitStreamWriter* w, int16_t v) { w->writeVarInt16(v); }
void h_writeVarInt32(BitStreamWriter* w, int32_t v) { w->writeVarInt32(v); }
void h_writeVarInt64(BitStreamWriter* w, int64_t v) { w->writeVarInt64(v); }
void h_writeVarInt(BitStreamWriter* w, int64_t v) { w->writeVarInt(v); }
void h_writeVarUInt16(BitStreamWriter* w, uint16_t v) { w->writeVarUInt16(v); }
void h_writeVarUInt32(BitStreamWriter* w, uint32_t v) { w->writeVarUInt32(v); }
void h_writeVarUInt64(BitStreamWriter* w, uint64_t v) { w->writeVarUInt64(v); }
void h_writeVarUInt(BitStreamWriter* w, uint64_t v) { w->writeVarUInt(v); }
void h_writeVarSize(BitStreamWriter* w, uint32_t v) { w->writeVarSize(v); }
void h_writeFloat16(BitStreamWriter* w, float v) { w->writeFloat16(v); }
void h_writeFloat32(BitStreamWriter* w, float v) { w->writeFloat32(v); }
void h_writeFloat64(BitStreamWriter* w, double v) { w->writeFloat64(v); }

size_t h_sizeVarInt16(int16_t v) { return bitSizeOfVarInt16(v); }
size_t h_sizeVarInt32(int32_t v) { return bitSizeOfVarInt32(v); }
size_t h_sizeVarInt64(int64_t v) { return bitSizeOfVarInt64(v); }
size_t h_sizeVarInt(int64_t v) { return bitSizeOfVarInt(v); }
size_t h_sizeVarUInt16(uint16_t v) { return bitSizeOfVarUInt16(v); }
size_t h_sizeVarUInt32(uint32_t v) { return bitSizeOfVarUInt32(v); }
size_t h_sizeVarUInt64(uint64_t v) { return bitSizeOfVarUInt64(v); }
size_t h_sizeVarUInt(uint64_t v) { return bitSizeOfVarUInt(v); }
size_t h_sizeVarSize(uint32_t v) { return bitSizeOfVarSize(v); }

float h_toFloat16(uint16_t v) { return convertUInt16ToFloat(v); }
uint16_t h_fromFloat16(float v) { return convertFloatToUInt16(v); }
float h_toFloat32(uint32_t v) { return convertUInt32ToFloat(v); }
uint32_t h_fromFloat32(float v) { return convertFloatToUInt32(v); }
double h_toFloat64(uint64_t v) { return convertUInt64ToDouble(v); }
uint64_t h_fromFloat64(double v) { return convertDoubleToUInt64(v); }

int64_t h_lower(size_t n, bool s) { return getBitFieldLowerBound(n, s); }
uint64_t h_upper(size_t n, bool s) { return getBitFieldUpperBound(n, s); }
size_t h_alignTo(size_t a, size_t p) { return alignTo(a, p); }
uint8_t h_numBits(uint64_t v) { return builtin::numBits(v); }

} // extern "C"
