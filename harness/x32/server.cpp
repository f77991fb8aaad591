// The 32-bit side of C33: reads sequences of choices from standard input, runs the driver on each in a child process,
// and writes what the program observed. Also holds the few pieces of a C++ runtime the driver needs, since there is no
// 32-bit one here.
#include "pbt.hpp"
#include <map>
using namespace pbt;
extern "C" int drive(Ctx *, Shared *, std::string *, uint8_t);

struct Out {
    volatile int32_t result;  // 1 finished, 2 not finished
    volatile uint32_t len;
    char text[48 << 20];
};
static Out *out;
static std::string *gObs;
static void publish(int r) {
    size_t n = std::min(gObs->size(), sizeof out->text);
    memcpy(out->text, gObs->data(), n);
    out->len = (uint32_t)n;
    out->result = r;
}
void pbt::finish32(const char *failure) {
    *gObs += std::string("FAIL ") + failure + "\n";
    publish(1);
    _exit(0);
}
static void onSignal(int) {
    publish(2);
    _exit(77);
}
static bool full(int fd, void *p, size_t n, bool in) {
    for (size_t d = 0; d < n;) {
        ssize_t k = in ? read(fd, (char *)p + d, n - d) : write(fd, (char *)p + d, n - d);
        if (k <= 0) return false;
        d += k;
    }
    return true;
}
int main() {
    out = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (out == MAP_FAILED) return 2;
    uint64_t n;
    std::vector<uint64_t> ch;
    while (full(0, &n, sizeof n, true)) {
        ch.resize(n);
        if (!full(0, ch.data(), n * sizeof(uint64_t), true)) return 2;
        out->result = 2;
        out->len = 0;
        pid_t p = fork();
        if (p == 0) {
            std::string obs;
            gObs = &obs;
            for (int s : {SIGILL, SIGTRAP, SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM}) signal(s, onSignal);
            alarm(60);
            Ctx c;
            c.replay = true;
            c.rep = ch.data();
            c.repLen = ch.size();
            int r = drive(&c, nullptr, &obs, 0xA5);
            publish(r);
            _exit(0);
        }
        int st = 0;
        if (p < 0 || waitpid(p, &st, 0) < 0) return 2;
        int32_t head[2] = {out->result, (int32_t)out->len};
        if (!full(1, head, sizeof head, false) || !full(1, out->text, out->len, false)) return 2;
    }
    return 0;
}

void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" void __cxa_pure_virtual() { abort(); }
extern "C" void *__dso_handle = nullptr;
template class std::basic_string<char>;
namespace std {
void __throw_length_error(const char *) { abort(); }
void __throw_logic_error(const char *) { abort(); }
void __throw_out_of_range_fmt(const char *, ...) { abort(); }
void __throw_out_of_range(const char *) { abort(); }
void __throw_bad_alloc() { abort(); }
void __throw_bad_array_new_length() { abort(); }
void __throw_bad_function_call() { abort(); }
void __throw_invalid_argument(const char *) { abort(); }
void __glibcxx_assert_fail(const char *, int, const char *, const char *) noexcept { abort(); }
// ordered maps: a plain binary search tree serves (the header node's links are parent = root, left = first, right = last)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // the header
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;  // only the header is red
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const, _Rb_tree_node_base &) noexcept { abort(); }
}  // namespace std
