// Instantiates the bit stream operations for every integer type they take, so that their bodies are part of the analysed program.
#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"

#include <cstdint>

namespace verif_stub {

template <typename T>
void bits(fly::BitStreamReader &reader, fly::BitStreamWriter &writer, T value)
{
    reader.read_bits(value, 1);
    writer.write_bits(value, 1);
}

void all_bits(fly::BitStreamReader &reader, fly::BitStreamWriter &writer)
{
    bits<std::uint8_t>(reader, writer, 0);
    bits<std::uint16_t>(reader, writer, 0);
    bits<std::uint32_t>(reader, writer, 0);
    bits<std::uint64_t>(reader, writer, 0);
}

} // namespace verif_stub
