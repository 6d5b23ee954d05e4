// Concrete runs of the C++ runtime for replay and search: one request per line.
//   read FUNC HEX BITS POS PRE [N]   reader on a heap copy of HEX: setBitPosition(POS), readBits64(PRE) if PRE, FUNC -> "value position" or "EXC"
//   write FUNC HEX BITS POS VALUE [N]                                                  -> "hexbuffer position" or "EXC"
//   call FUNC ARG...                                                                   -> "value" or "EXC"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "zserio/BitFieldUtil.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/BitSizeOfCalculator.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/FloatUtil.h"

using namespace zserio;

static std::vector<uint8_t> hex(const std::string& s)
{
    std::vector<uint8_t> v;
    if (s == "-")
        return v;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        v.push_back(static_cast<uint8_t>(std::strtoul(s.substr(i, 2).c_str(), nullptr, 16)));
    return v;
}

static std::string tohex(const uint8_t* d, size_t n)
{
    std::string r;
    char b[3];
    for (size_t i = 0; i < n; ++i)
    {
        std::snprintf(b, sizeof(b), "%02x", d[i]);
        r += b;
    }
    return r.empty() ? "-" : r;
}

static uint64_t num(const std::string& s)
{
    return s[0] == '-' ? static_cast<uint64_t>(std::strtoll(s.c_str(), nullptr, 10)) : std::strtoull(s.c_str(), nullptr, 10);
}

static std::string read(std::istringstream& in)
{
    std::string f, h;
    size_t bits = 0, pos = 0;
    unsigned pre = 0, n = 0;
    in >> f >> h >> bits >> pos >> pre >> n;
    const std::vector<uint8_t> d = hex(h);
    // exactly sized heap block: the address sanitizer sees every access outside
    uint8_t* buf = static_cast<uint8_t*>(std::malloc(d.size() ? d.size() : 1));
    if (!d.empty())
        std::memcpy(buf, d.data(), d.size());
    std::ostringstream out;
    const uint8_t k = static_cast<uint8_t>(n);
    try
    {
        BitStreamReader r(Span<const uint8_t>(buf, d.size()), bits);
        r.setBitPosition(pos);
        if (pre != 0)
            (void)r.readBits64(static_cast<uint8_t>(pre));
        if (f == "position")
            ;
        else if (f == "alignTo")
            r.alignTo(n);
        else if (f == "readBits")
            out << r.readBits(k);
        else if (f == "readBits64")
            out << r.readBits64(k);
        else if (f == "readSignedBits")
            out << r.readSignedBits(k);
        else if (f == "readSignedBits64")
            out << r.readSignedBits64(k);
        else if (f == "readBool")
            out << static_cast<int>(r.readBool());
        else if (f == "readVarInt16")
            out << r.readVarInt16();
        else if (f == "readVarInt32")
            out << r.readVarInt32();
        else if (f == "readVarInt64")
            out << r.readVarInt64();
        else if (f == "readVarInt")
            out << r.readVarInt();
        else if (f == "readVarUInt16")
            out << r.readVarUInt16();
        else if (f == "readVarUInt32")
            out << r.readVarUInt32();
        else if (f == "readVarUInt64")
            out << r.readVarUInt64();
        else if (f == "readVarUInt")
            out << r.readVarUInt();
        else if (f == "readVarSize")
            out << r.readVarSize();
        else if (f == "readFloat16")
            out << convertFloatToUInt32(r.readFloat16());
        else if (f == "readFloat32")
            out << convertFloatToUInt32(r.readFloat32());
        else if (f == "readFloat64")
            out << convertDoubleToUInt64(r.readFloat64());
        else
            out << "?";
        out << " " << r.getBitPosition();
    }
    catch (const CppRuntimeException&)
    {
        out.str("EXC");
    }
    std::free(buf);
    return out.str();
}

static std::string write(std::istringstream& in)
{
    std::string f, h, val;
    size_t bits = 0, pos = 0;
    unsigned n = 0;
    in >> f >> h >> bits >> pos >> val >> n;
    const std::vector<uint8_t> d = hex(h);
    uint8_t* buf = static_cast<uint8_t*>(std::malloc(d.size() ? d.size() : 1));
    if (!d.empty())
        std::memcpy(buf, d.data(), d.size());
    std::ostringstream out;
    const uint8_t k = static_cast<uint8_t>(n);
    const uint64_t v = num(val);
    const int64_t s = static_cast<int64_t>(v);
    try
    {
        BitStreamWriter w(Span<uint8_t>(buf, d.size()), bits);
        w.setBitPosition(pos);
        if (f == "alignTo")
            w.alignTo(n);
        else if (f == "writeBits")
            w.writeBits(static_cast<uint32_t>(v), k);
        else if (f == "writeBits64")
            w.writeBits64(v, k);
        else if (f == "writeSignedBits")
            w.writeSignedBits(static_cast<int32_t>(s), k);
        else if (f == "writeSignedBits64")
            w.writeSignedBits64(s, k);
        else if (f == "writeBool")
            w.writeBool(v != 0);
        else if (f == "writeVarInt16")
            w.writeVarInt16(static_cast<int16_t>(s));
        else if (f == "writeVarInt32")
            w.writeVarInt32(static_cast<int32_t>(s));
        else if (f == "writeVarInt64")
            w.writeVarInt64(s);
        else if (f == "writeVarInt")
            w.writeVarInt(s);
        else if (f == "writeVarUInt16")
            w.writeVarUInt16(static_cast<uint16_t>(v));
        else if (f == "writeVarUInt32")
            w.writeVarUInt32(static_cast<uint32_t>(v));
        else if (f == "writeVarUInt64")
            w.writeVarUInt64(v);
        else if (f == "writeVarUInt")
            w.writeVarUInt(v);
        else if (f == "writeVarSize")
            w.writeVarSize(static_cast<uint32_t>(v));
        else if (f == "writeFloat16")
            w.writeFloat16(convertUInt32ToFloat(static_cast<uint32_t>(v)));
        else if (f == "writeFloat32")
            w.writeFloat32(convertUInt32ToFloat(static_cast<uint32_t>(v)));
        else if (f == "writeFloat64")
            w.writeFloat64(convertUInt64ToDouble(v));
        out << tohex(buf, d.size()) << " " << w.getBitPosition();
    }
    catch (const CppRuntimeException&)
    {
        out.str("EXC");
    }
    std::free(buf);
    return out.str();
}

static std::string call(std::istringstream& in)
{
    std::string f, a, b = "0";
    in >> f >> a >> b;
    const uint64_t v = num(a);
    const uint64_t u = num(b);
    const int64_t s = static_cast<int64_t>(v);
    std::ostringstream out;
    try
    {
        if (f == "sizeVarInt16")
            out << bitSizeOfVarInt16(static_cast<int16_t>(s));
        else if (f == "sizeVarInt32")
            out << bitSizeOfVarInt32(static_cast<int32_t>(s));
        else if (f == "sizeVarInt64")
            out << bitSizeOfVarInt64(s);
        else if (f == "sizeVarInt")
            out << bitSizeOfVarInt(s);
        else if (f == "sizeVarUInt16")
            out << bitSizeOfVarUInt16(static_cast<uint16_t>(v));
        else if (f == "sizeVarUInt32")
            out << bitSizeOfVarUInt32(static_cast<uint32_t>(v));
        else if (f == "sizeVarUInt64")
            out << bitSizeOfVarUInt64(v);
        else if (f == "sizeVarUInt")
            out << bitSizeOfVarUInt(v);
        else if (f == "sizeVarSize")
            out << bitSizeOfVarSize(static_cast<uint32_t>(v));
        else if (f == "toFloat16")
            out << convertFloatToUInt32(convertUInt16ToFloat(static_cast<uint16_t>(v)));
        else if (f == "fromFloat16")
            out << convertFloatToUInt16(convertUInt32ToFloat(static_cast<uint32_t>(v)));
        else if (f == "float32")
            out << convertFloatToUInt32(convertUInt32ToFloat(static_cast<uint32_t>(v)));
        else if (f == "float64")
            out << convertDoubleToUInt64(convertUInt64ToDouble(v));
        else if (f == "lower")
            out << getBitFieldLowerBound(v, u != 0);
        else if (f == "upper")
            out << getBitFieldUpperBound(v, u != 0);
        else if (f == "alignTo")
            out << alignTo(v, u);
        else if (f == "numBits")
            out << static_cast<unsigned>(builtin::numBits(v));
        else
            out << "?";
    }
    catch (const CppRuntimeException&)
    {
        out.str("EXC");
    }
    return out.str();
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream in(line);
        std::string op;
        in >> op;
        std::cout << (op == "read" ? read(in) : op == "write" ? write(in) : call(in)) << std::endl;
    }
    return 0;
}
