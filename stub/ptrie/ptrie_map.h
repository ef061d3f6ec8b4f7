// Test double for the external dependency ptrie (github.com/petergjoel/ptrie), which is not
// available in this sandbox. It implements, with std containers, the documented contract that
// PDAAAL relies on: a set/map over finite sequences of trivially representable elements that
// assigns consecutive, stable ids in insertion order.
#ifndef VERIF_PTRIE_STANDIN_H
#define VERIF_PTRIE_STANDIN_H
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace ptrie {
    template<typename T>
    struct byte_iterator {
        static constexpr unsigned char& access(T* data, size_t id) {
            return reinterpret_cast<unsigned char*>(data)[id];
        }
        static constexpr const unsigned char& const_access(const T* data, size_t id) {
            return reinterpret_cast<const unsigned char*>(data)[id];
        }
        static constexpr size_t element_size() { return sizeof(T); }
        static constexpr bool continious() { return true; }
    };

    template<typename K>
    class set_stable {
    protected:
        std::unordered_map<std::string, size_t> _index;
        std::vector<std::string> _keys;

        static std::string bytes(const K* data, size_t n) {
            std::string s;
            const size_t es = byte_iterator<K>::element_size();
            s.reserve(n * es);
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < es; ++j)
                    s.push_back((char)byte_iterator<K>::const_access(data + i, j));
            return s;
        }
        std::pair<bool, size_t> insert_bytes(std::string s) {
            auto [it, fresh] = _index.emplace(s, _keys.size());
            if (fresh) _keys.push_back(std::move(s));
            return {fresh, it->second};
        }
        [[nodiscard]] std::pair<bool, size_t> exists_bytes(const std::string& s) const {
            auto it = _index.find(s);
            if (it == _index.end()) return {false, 0};
            return {true, it->second};
        }
        const std::string& key_at(size_t id) const {
            if (id >= _keys.size()) throw std::out_of_range("ptrie stand-in: unpack of an id that was never inserted");
            return _keys[id];
        }
    public:
        set_stable() = default;

        std::pair<bool, size_t> insert(const K& k) { return insert_bytes(bytes(&k, 1)); }
        std::pair<bool, size_t> insert(const std::vector<K>& k) { return insert_bytes(bytes(k.data(), k.size())); }
        std::pair<bool, size_t> insert(std::pair<const K*, size_t> k) { return insert_bytes(bytes(k.first, k.second)); }
        std::pair<bool, size_t> insert(const K* d, size_t n) { return insert_bytes(bytes(d, n)); }

        [[nodiscard]] std::pair<bool, size_t> exists(const K& k) const { return exists_bytes(bytes(&k, 1)); }
        [[nodiscard]] std::pair<bool, size_t> exists(const std::vector<K>& k) const { return exists_bytes(bytes(k.data(), k.size())); }
        [[nodiscard]] std::pair<bool, size_t> exists(std::pair<const K*, size_t> k) const { return exists_bytes(bytes(k.first, k.second)); }
        [[nodiscard]] std::pair<bool, size_t> exists(const K* d, size_t n) const { return exists_bytes(bytes(d, n)); }

        bool erase(const K& k) { return _index.erase(bytes(&k, 1)) > 0; }
        bool erase(const std::vector<K>& k) { return _index.erase(bytes(k.data(), k.size())) > 0; }
        bool erase(std::pair<const K*, size_t> k) { return _index.erase(bytes(k.first, k.second)) > 0; }

        [[nodiscard]] size_t size() const { return _keys.size(); }

        size_t unpack(size_t id, K* out) const {
            const auto& s = key_at(id);
            const size_t es = byte_iterator<K>::element_size();
            for (size_t i = 0; i < s.size(); ++i) byte_iterator<K>::access(out + i / es, i % es) = (unsigned char)s[i];
            return s.size() / es;
        }
        std::vector<K> unpack(size_t id) const {
            const auto& s = key_at(id);
            std::vector<K> res(s.size() / byte_iterator<K>::element_size());
            unpack(id, res.data());
            return res;
        }
    };
    template<typename K> using set = set_stable<K>;

    template<typename K, typename T>
    class map : private set_stable<K> {
        using base = set_stable<K>;
        std::deque<T> _data; // stable references, as in the real library
        std::pair<bool, size_t> grow(std::pair<bool, size_t> r) {
            if (r.first) _data.emplace_back();
            return r;
        }
    public:
        map() = default;
        using base::exists;
        using base::erase;
        using base::size;
        using base::unpack;
        template<typename Key> std::pair<bool, size_t> insert(const Key& k) { return grow(base::insert(k)); }
        T& get_data(size_t id) { return _data.at(id); }
        const T& get_data(size_t id) const { return _data.at(id); }
        template<typename Key> T& operator[](const Key& k) { return _data[insert(k).second]; }
    };
}
#endif
