// Instantiates the string operations for every character type, so that their bodies are part of the analysed program.
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/types/string/format.hpp"
#include "fly/types/string/lexer.hpp"
#include "fly/types/string/string.hpp"

#include <cstdint>
#include <string>

template class fly::detail::BasicClassifier<char>;
template class fly::detail::BasicClassifier<wchar_t>;
template class fly::detail::BasicClassifier<char8_t>;
template class fly::detail::BasicClassifier<char16_t>;
template class fly::detail::BasicClassifier<char32_t>;

template class fly::detail::BasicUnicode<char>;
template class fly::detail::BasicUnicode<wchar_t>;
template class fly::detail::BasicUnicode<char8_t>;
template class fly::detail::BasicUnicode<char16_t>;
template class fly::detail::BasicUnicode<char32_t>;

template class fly::BasicString<char>;
template class fly::BasicString<wchar_t>;
template class fly::BasicString<char8_t>;
template class fly::BasicString<char16_t>;
template class fly::BasicString<char32_t>;

template class fly::BasicLexer<char>;
template class fly::BasicLexer<wchar_t>;
template class fly::BasicLexer<char8_t>;
template class fly::BasicLexer<char16_t>;
template class fly::BasicLexer<char32_t>;

template class fly::net::Endpoint<fly::net::IPv4Address>;
template class fly::net::Endpoint<fly::net::IPv6Address>;

namespace verif_stub {

template <typename CharType>
struct AnyString
{
    using S = fly::BasicString<CharType>;
    using string_type = typename S::string_type;

    static void conversions(string_type const &s)
    {
        (void)S::template convert<std::string>(s);
        (void)S::template convert<std::wstring>(s);
        (void)S::template convert<std::u8string>(s);
        (void)S::template convert<std::u16string>(s);
        (void)S::template convert<std::u32string>(s);
        (void)S::template convert<std::int8_t>(s);
        (void)S::template convert<std::uint8_t>(s);
        (void)S::template convert<std::int16_t>(s);
        (void)S::template convert<std::uint16_t>(s);
        (void)S::template convert<std::int32_t>(s);
        (void)S::template convert<std::uint32_t>(s);
        (void)S::template convert<std::int64_t>(s);
        (void)S::template convert<std::uint64_t>(s);
        (void)S::template convert<float>(s);
        (void)S::template convert<double>(s);
        (void)S::template convert<long double>(s);
    }

    static void codepoints(string_type const &s)
    {
        auto it = s.cbegin();
        (void)S::decode_codepoint(it, s.cend());
        (void)S::template escape_all_codepoints<'U'>(s);
        (void)S::template escape_all_codepoints<'u'>(s);
        (void)S::template escape_codepoint<'U'>(it, s.cend());
        (void)S::template escape_codepoint<'u'>(it, s.cend());
        (void)S::unescape_codepoint(it, s.cend());
        (void)S::join(CharType('/'), s, s);
    }
};

template struct AnyString<char>;
template struct AnyString<wchar_t>;
template struct AnyString<char8_t>;
template struct AnyString<char16_t>;
template struct AnyString<char32_t>;

} // namespace verif_stub
