// C12: range coder. mode 0: one coding step is undone by one decoding step for every coder state;
// mode 1: symbol lookup from a slot; mode 2: whole messages through the encoder and decoder objects.
#include <hzip_core/kernel/hzrans/hzrans64_codec.h>
struct hz_tab { uint64_t f[8], n; };
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0), scale = hzs_param("scale", 12);
    const uint64_t L = 1ull << 31, total = 1ull << scale;
    uint64_t base = hzs_live();
    if (mode == 0) {
        HZ_Stack<uint32_t> words;
        hzrans64_t st;
        hzrans64_codec_init(&st, 2, scale);
        HZ_CHECK(st.x == L, "a new coder is in its initial state");
        uint64_t ls = hz_sym<uint64_t>("ls"), bs = hz_sym<uint64_t>("bs"), x = hz_sym<uint64_t>("x");
        hzs_assume(ls >= 1 && ls <= total);
        hzs_assume(bs <= total - ls);
        hzs_assume(x >= L && x < L << 32);
        st.x = x; st.ls = ls; st.bs = bs;
        hzrans64_encode_s(&st, &words);
        uint64_t y = st.x, c = st.count;
        HZ_CHECK(c == words.size() && c <= 1, "the word count grows by the words written");
        HZ_CHECK(y >= L, "the coder state stays above its lower bound");
        HZ_CHECK(y < L << 32, "the coder state stays below its upper bound");
        HZ_CHECK((y & (total - 1)) - bs < ls, "the state's slot lies in the coded symbol's range");
        rainman::ptr<uint32_t> data(c ? 1 : 0);
        if (c) data[0] = words.top();
        hzs_reach(c ? "word" : "noword");
        hzrans64_t de;
        hzrans64_codec_init(&de, 2, scale);
        de.x = y; de.ls = ls; de.bs = bs;
        hzrans64_decode_s(&de, data);
        HZ_CHECK(de.count == c, "decoding a step reads exactly the words the step wrote");
        HZ_CHECK(de.x == x, "decoding a step restores the state before encoding it");
        // flush and load
        HZ_Stack<uint32_t> fl;
        st.count = 0;
        hzrans64_enc_flush(&st, &fl);
        HZ_CHECK(fl.size() == 2 && st.count == 2, "flushing writes two words");
        rainman::ptr<uint32_t> two(2);
        two[0] = fl.top(); fl.pop(); two[1] = fl.top();
        hzrans64_dec_load_state(&de, two);
        HZ_CHECK(de.x == y && de.count == 2, "the flushed state is loaded back");
        hzrans64_destroy(&st); hzrans64_destroy(&de);
    } else if (mode == 1) {
        uint64_t n = 1 + hz_pick((uint8_t) hzs_param("n", 4), "size");
        hzrans64_t st;
        hzrans64_codec_init(&st, n, scale);
        uint64_t sum = 0;
        for (uint64_t i = 0; i < n; i++) {
            uint64_t f = i + 1 < n ? (uint64_t) hz_sym<uint32_t>("freq") : total - sum;
            hzs_assume(f >= 1 && f <= total);
            sum += f;
            hzs_assume(sum <= total);
            st.ftable[i] = f;
        }
        uint64_t slot = hz_sym<uint32_t>("slot");
        hzs_assume(slot < total);
        uint64_t s = hzrans64_inv_bs(&st, slot);
        HZ_CHECK(s < n, "a slot belongs to a symbol of the alphabet");
        hzrans64_add_to_seq(&st, s);
        HZ_CHECK(st.bs <= slot && slot - st.bs < st.ls, "a slot belongs to the symbol whose range contains it");
        HZ_CHECK(st.bs + st.ls <= total, "the symbol's range lies below the total");
        if (n > 2) hzs_reach("lookup");
        hzrans64_destroy(&st);
    } else {
        uint64_t n = hzs_param("size", 2), len = hz_pick((uint8_t) (hzs_param("len", 3) + 1), "len"), any = hzs_param("any", 0);
        {
            hz_tab tab; tab.n = n;
            uint64_t sum = 0;
            for (uint64_t i = 0; i < n; i++) {
                uint64_t f = i + 1 < n ? (uint64_t) hz_sym<uint32_t>("freq") : total - sum;
                hzs_assume(f >= 1 && f <= total);
                sum += f;
                hzs_assume(sum <= total);
                tab.f[i] = f;
            }
            hzrans64_encoder enc;
            enc.set_header(n, (uint16_t) scale, len);
            {
                uint8_t msg[16]; uint64_t pos = len;
                for (uint64_t i = 0; i < len; i++) msg[i] = hz_pick((uint8_t) n, "sym");
                uint64_t before[16], in[16];
                enc.set_size(len);
                enc.set_cross_encoder([&](const rainman::ptr<hzrans64_t> &st, const rainman::ptr<HZ_Stack<uint32_t>> &) {
                    for (uint64_t i = 0; i < n; i++) st->ftable[i] = tab.f[i];
                    pos--;
                    in[pos] = st->x;
                    if (any) { // every step starts from an arbitrary state: the symbols coded before it can be any number of symbols
                        HZ_CHECK(st->x >= L && st->x < L << 32, "the coder state stays between its bounds");
                        st->x = hz_sym<uint64_t>("state");
                        hzs_assume(st->x >= L && st->x < L << 32);
                    }
                    before[pos] = st->x;
                    hzrans64_add_to_seq(st.pointer(), msg[pos]);
                });
                auto out = enc.encode();
                HZ_CHECK(pos == 0, "the encoder visits every symbol, last to first");
                HZ_CHECK(out.n == out.data.size() && out.n >= 2 && out.n <= 2 + len, "the reported word count is the number of words");
                hzrans64_decoder dec;
                dec.set_header(n, (uint16_t) scale, len);
                uint64_t seen = 0, count = 2;
                rainman::ptr<uint64_t> sym(1);
                dec.override_symbol_ptr(sym);
                rainman::ptr<hzrans64_t> keep;
                dec.set_cross_decoder([&](const rainman::ptr<hzrans64_t> &st, const rainman::ptr<HZ_Stack<uint32_t>> &) {
                    keep = st;
                    if (seen) { HZ_CHECK(st->x == before[seen - 1], "the decoder runs through the encoder's states"); st->x = in[seen - 1]; /* with any=0 equal to before[]: keeps the terms small */ }
                    for (uint64_t i = 0; i < n; i++) st->ftable[i] = tab.f[i];
                    uint64_t s = hzrans64_inv_bs(st.pointer(), st->x & st->mask);
                    HZ_CHECK(s == msg[seen], "the decoder finds the encoded symbol");
                    *sym = s;
                    seen++;
                    hzrans64_add_to_seq(st.pointer(), s);
                });
                auto back = dec.decode(out.data);
                HZ_CHECK(back.n == len && seen == len, "as many symbols are decoded as were encoded");
                for (uint64_t i = 0; i < len; i++) HZ_CHECK(back.data[i] == msg[i], "decoding returns the encoded symbols in order");
                if (len) HZ_CHECK(keep->count == out.n, "the decoder reads exactly the words that were written");
                if (len > 1) hzs_reach("message");
            }
        }
    }
    (void) base;
}
