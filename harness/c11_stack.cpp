// C11: HZ_Stack against an ideal stack, for every push/pop history of k operations starting from a fill level.
#include <hzip_core/utils/stack.h>
typedef uint32_t T;
static T *model; static uint64_t msize;
static void compare(HZ_Stack<T> &s) {
    HZ_CHECK(s.size() == msize, "size() equals the number of stored elements");
    HZ_CHECK(s.empty() == (msize == 0), "empty() tells whether elements are stored");
    if (msize) HZ_CHECK(s.top() == model[msize - 1], "top() is the most recently pushed element");
}
extern "C" void hz_main() {
    uint64_t level = hzs_param("level", 0), k = hzs_param("k", 6), drain = hzs_param("drain", 0);
    model = (T *) malloc((level + k + 1) * sizeof(T));
    uint64_t base = hzs_live();
    {
        HZ_Stack<T> s;
        compare(s);
        for (uint64_t i = 0; i < level; i++) { s.push((T) (i * 7 + 3)); model[msize++] = (T) (i * 7 + 3); }
        compare(s);
        for (uint64_t i = 0; i < k; i++) {
            if (hz_pick(2, "op")) {
                T v = hz_sym<T>("value");
                s.push(v);
                model[msize++] = v;
            } else {
                if (!msize) hzs_reach("pop-empty");
                s.pop();
                if (msize) msize--;
            }
            compare(s);
        }
        hzs_observe("size", s.size());
        if (drain) {
            uint64_t n = msize;
            for (uint64_t i = 0; i < n; i++) {
                HZ_CHECK(s.top() == model[msize - 1], "elements come back in reverse order");
                s.pop(); msize--;
                if (msize < 3 || (msize & 0xffff) < 2 || (msize & 0xffff) > 0xfffd) compare(s);
            }
            HZ_CHECK(s.empty() && s.size() == 0, "the drained stack is empty");
            s.push(5); model[msize++] = 5; compare(s);
            s.push(6); model[msize++] = 6; compare(s);
            s.pop(); msize--; compare(s);
            hzs_reach("drained");
        }
    }
    HZ_CHECK(hzs_live() == base, "all memory is released when the stack is destroyed");
    free(model);
}
