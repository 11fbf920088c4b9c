// Analysis-only stand-in for knor::base::vmap: the same class by what it means (a table from cluster ids to values, walked
// by its keys) instead of by its scanning loops. Rule C24 checks separately that the real class behaves like this.
// knor_nkeys/knor_key are left open: the number of keys and the j-th of them.
#include <memory>
#include <vector>
#include <utility>
#include <cstddef>
namespace knor { namespace base {
class clusters;
template <typename T> class vmap_iterator;
template <typename T> class vmap {
  private:
    std::vector<T> data;
  public:
    T emptyval;
    size_t knor_nkeys() const;
    size_t knor_key(const size_t j) const;
    bool knor_has(const size_t idx) const;
    vmap() : emptyval(0) { }
    vmap(const size_t capacity, const T emptyval) : emptyval(emptyval) { data.assign(capacity, emptyval); }
    void set_capacity(const size_t capacity) { data.assign(capacity, emptyval); }
    const size_t size() const { return data.size(); }
    void erase(size_t idx) { data[idx] = emptyval; }
    T& operator[] (const size_t idx) { return data[idx]; }
    const T& operator[] (const size_t idx) const { return data[idx]; }
    T& at (const size_t idx) { return data[idx]; }
    vmap_iterator<T> get_iterator() { return vmap_iterator<T>(*this); }
    void clear() { data.assign(size(), emptyval); }
    const bool empty() const { return !static_cast<bool>(size()); }
    const bool has_key(const size_t idx) const { return knor_has(idx); }
    void get_keys(std::vector<size_t>& ids) { for (size_t j = 0; j < knor_nkeys(); j++) ids.push_back(knor_key(j)); }
    const size_t keycount() { return knor_nkeys(); }
    const bool keyless() const { return knor_nkeys() == 0; }
};
template <typename T> class vmap_iterator {
  private:
    size_t offset;
    const vmap<T>& vm;
  public:
    vmap_iterator(const vmap<T>& _vm) : vm(_vm) { offset = 0; }
    std::pair<size_t, T> next() {
        std::pair<size_t, T> ret(vm.knor_key(offset), vm[vm.knor_key(offset)]);
        offset++;
        return ret;
    }
    bool has_next() { return offset < vm.knor_nkeys(); }
};
template class vmap<unsigned>;
template class vmap_iterator<unsigned>;
template class vmap<std::shared_ptr<clusters> >;
template class vmap_iterator<std::shared_ptr<clusters> >;
} }
