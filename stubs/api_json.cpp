// Instantiates the conversions of JSON values and of configuration values, so that their bodies are part of the analysed program.
#include "fly/config/config.hpp"
#include "fly/types/json/json.hpp"

#include <array>
#include <cstdint>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

template class fly::detail::JsonIterator<fly::Json>;
template class fly::detail::JsonIterator<fly::Json const>;
template class fly::detail::JsonReverseIterator<fly::detail::JsonIterator<fly::Json>>;
template class fly::detail::JsonReverseIterator<fly::detail::JsonIterator<fly::Json const>>;

namespace verif_stub {

struct AnyConfig : fly::config::Config
{
    static constexpr char const *identifier = "any";

    template <typename T>
    T use() const
    {
        return get_value<T>("name", T {});
    }

    void all() const
    {
        use<bool>();
        use<std::int8_t>();
        use<std::uint8_t>();
        use<std::int16_t>();
        use<std::uint16_t>();
        use<std::int32_t>();
        use<std::uint32_t>();
        use<std::int64_t>();
        use<std::uint64_t>();
        use<float>();
        use<double>();
        use<long double>();
        use<std::string>();
        use<std::vector<int>>();
        use<std::vector<std::string>>();
        use<std::list<double>>();
        use<std::set<int>>();
        use<std::array<int, 4>>();
        use<std::map<std::string, int>>();
        use<std::unordered_map<std::string, std::string>>();
    }
};

void configs(AnyConfig const &config)
{
    config.all();
}

} // namespace verif_stub
