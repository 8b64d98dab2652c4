"""Hand-written changes of the sources: semantic bugs (kind B, the checks named must report a VIOLATION) and refactorings or
equivalent changes (kind R, the checks named must stay quiet).  Used by mutate.py only; no check reads this file."""
M = []
def B(id, props, f, old, new, n=1): M.append(('B', id, props.split(), f, old, new, n))
def R(id, props, f, old, new, n=1): M.append(('R', id, props.split(), f, old, new, n))
P = 'hzip_core/preprocessor/'
# --- C01..C04
B('delta-short', 'C01', P + 'delta.cpp', 'if (length == 0) return;', 'if (length < 3) return;')
R('delta-fwd', 'C01', P + 'delta.cpp', '''for (uint64_t i = 1; i < length; i++) {
        data[i] += data[i - 1];
    }''', '''int acc = length ? data[0] : 0;
    for (uint64_t i = 1; i < length; ++i) {
        acc = (int) ((unsigned) acc + (unsigned) data[i]);
        data[i] = acc;
    }''')
B('zz-order', 'C02', P + 'zigzag.h', '''                    if (y == ymax) {
                        x++;
                        return;
                    }

                    if (x == 0) {
                        y++;
                        return;
                    }
''', '''                    if (x == 0) {
                        y++;
                        return;
                    }

                    if (y == ymax) {
                        x++;
                        return;
                    }
''')
B('zz-empty', 'C02', P + 'zigzag.h', 'if (width == 0 || height == 0) return end();', 'if (width == 0 && height == 0) return end();')
B('zz-post', 'C02', P + 'zigzag.h', '''                _val.next(width, height);
                this->x = _val.x;
                this->y = _val.y;
                return *this;''', '''                _val.next(width, height);
                this->x = _val.x;
                return *this;''')
R('zz-xor', 'C02', P + 'zigzag.h', 'if ((x + y) & 1) {', 'if ((x ^ y) % 2 == 1) {')
B('bwt-third', 'C03', P + 'burrows_wheeler.h', " || T[SA12[i] + 2] != c2", "")
B('bwt-lastsym', 'C03', P + 'burrows_wheeler.h', '''for (int i = 0; i <= alphabet_size; i++) {
                auto elem''', '''for (int i = 0; i < alphabet_size; i++) {
                auto elem''')
B('bwt-recur', 'C03', P + 'burrows_wheeler.h', 'suffix_array(R, SA12, n02, name);', 'suffix_array(R, SA12, n02, n02 > 3 ? name : name - 1);')
R('bwt-alpha', 'C03', P + 'burrows_wheeler.h', 'suffix_array(T, SA, data_len, alphabet_size + 1);', 'suffix_array(T, SA, data_len, alphabet_size);')
B('bwt-r3', 'C03', P + 'burrows_wheeler.h', 'leq(T[i], T[i + 1], R[SA12[t] - n0 + 1], T[j], T[j + 1],', 'leq(T[i], T[i + 1], R[SA12[t] - n0], T[j], T[j + 1],')
B('bwt-index', 'C03', P + 'burrows_wheeler.h', 'if (i == bw_index) {', 'if (i == bw_index && i < data_len) {')
R('bwt-leq', 'C03', P + 'burrows_wheeler.h', 'return (a1 < b1 || a1 == b1 && a2 <= b2);', 'return a1 != b1 ? a1 < b1 : !(b2 < a2);')
B('mtf-reuse', 'C04', P + 'move_to_front.h', '''void transform() {
            lru_cache.clear();
            for (uint64_t i = 0;''', '''void transform() {
            for (uint64_t i = lru_cache.size();''')
B('mtf-u8', 'C04', P + 'move_to_front.h', 'auto chri = data[i];', 'uint8_t chri = data[i];')
R('mtf-rotate', 'C04', P + 'move_to_front.h', '''                lru_cache.erase(lru_cache.begin() + chri);
                lru_cache.insert(lru_cache.begin(), data[i]);''', '''                for (auto k = chri; k > 0; k--) lru_cache[k] = lru_cache[k - 1];
                lru_cache[0] = data[i];''')
# --- C05..C08
B('col-mask', 'C05', P + 'color.cpp', 'uint16_t average = (x + (diff >> 1)) & _mask;', 'uint16_t average = (x + (diff >> 1));')
B('col-mask2', 'C05', P + 'color.cpp', 'uint16_t diff = (y - x) & _mask;', 'uint16_t diff = (y - x);')
B('col-depth16', 'C05', P + 'color.cpp', '_mask = (1ull << _bit_depth) - 1;', '_mask = (1ull << (_bit_depth & 0xf)) - 1;')
B('col-inplace', 'C05', P + 'color.cpp', '''        auto[g, temp] = reverse_lift(std::pair(y, cg));
        auto[r, b] = reverse_lift(std::pair(temp, co));

        output[i] = r;
        output[i + lz] = g;''', '''        auto[g, temp] = reverse_lift(std::pair(y, cg));
        output[i + lz] = g;
        auto[r, b] = reverse_lift(std::pair(temp, buffer[i + lz]));

        output[i] = r;''')
R('col-lz', 'C05 C08', P + 'color.cpp', '''    uint64_t lz2 = lz << 1;

    for (uint64_t i = 0; i < lz; i++) {
        auto r = buffer[i];''', '''    uint64_t lz2 = lz + lz;

    for (uint64_t i = lz; i-- > 0;) {
        auto r = buffer[i];''')
B('px-shift', 'C06', P + 'color.h', 'T x = (p.x - (p.y >> 1));', 'T x = (p.x - (p.y / 2));')
B('px-space', 'C06', P + 'color.h', 'static_cast<HZ_COLOR_TRANSFORM>((color_space << 1) + reverse)', 'static_cast<HZ_COLOR_TRANSFORM>(color_space + reverse)')
B('paeth-ge', 'C07', 'hzip_core/models/paeth.cpp', '''                    uint16_t diff;
                    if (t >= d) {
                        diff = t - d;
                    } else {
                        diff = (1 << bit_depth) + t - d;
                    }

                    output[offset + x] = diff;
                    continue;
                }

                if (y > 0 && x == 0) {''', '''                    uint16_t diff;
                    if (t > d) {
                        diff = t - d;
                    } else {
                        diff = (1 << bit_depth) + t - d;
                    }

                    output[offset + x] = diff;
                    continue;
                }

                if (y > 0 && x == 0) {''')
B('paeth-tie', 'C08', 'hzip_core/models/paeth.cpp', '''                    if (da == dd) {
                        d = a;
                    } else if (db == dd) {
                        d = b;
                    } else {''', '''                    if (db == dd) {
                        d = b;
                    } else if (da == dd) {
                        d = a;
                    } else {''')
B('paeth-fwd', 'C07', 'hzip_core/models/paeth.cpp', 'for (int32_t x = width - 1; x >= 0; x--) {', 'for (int32_t x = 0; x < width; x++) {')
B('paeth-chan', 'C07', 'hzip_core/models/paeth.cpp', 'uint64_t channel_offset = channel_index * width * height;\n        for', 'uint64_t channel_offset = channel_index * width * width;\n        for')
R('paeth-mod', 'C07 C08', 'hzip_core/models/paeth.cpp', '''                    uint16_t diff;
                    if (t >= d) {
                        diff = t - d;
                    } else {
                        diff = (1 << bit_depth) + t - d;
                    }

                    output[offset + x] = diff;
                    continue;
                }

                if (y > 0 && x == 0) {''', '''                    uint32_t wrap = t < d ? (1u << bit_depth) : 0;
                    output[offset + x] = (uint16_t) (wrap + t - d);
                    continue;
                }

                if (y > 0 && x == 0) {''')
B('cl-paeth-and', 'C08', 'hzip_core/models/paeth.cl', 'if (y < m) {\n\t\tm = y;', 'if (y <= m) {\n\t\tm = x;')
R('cl-paeth-end', 'C08', 'hzip_core/models/paeth.cl', 'u64 end_index = start_index + s - 1;', 'u64 end_index = start_index + s;')
B('cl-stride', 'C08', 'hzip_core/models/paeth.cpp', 'uint64_t true_size = (n / stride_size) + (n % stride_size != 0);', 'uint64_t true_size = (n / stride_size);')
B('cl-chan', 'C08', 'hzip_core/models/paeth.cpp', 'n * sizeof(uint16_t), buffer.pointer() + channel_offset);', 'n * sizeof(uint16_t), buffer.pointer() + channel_index);')
B('cl-out', 'C08', P + 'color.cpp', '''        auto output = rainman::ptr<uint16_t>(buffer.size());
        queue.enqueueReadBuffer(buf, CL_FALSE, 0, buffer.size() * sizeof(uint16_t), output.pointer());
        queue.finish();
        return output;
    }
}

rainman::ptr<uint16_t>
hztrans::LinearU16XColorTransformer::rgb''', '''        auto output = rainman::ptr<uint16_t>(buffer.size());
        queue.enqueueReadBuffer(buf, CL_FALSE, 0, n * sizeof(uint16_t), output.pointer());
        queue.finish();
        return output;
    }
}

rainman::ptr<uint16_t>
hztrans::LinearU16XColorTransformer::rgb''')
# --- C09, C10
U = 'hzip_core/utils/utils.h'
B('elias-n', 'C09', U, '.n=(HZ_UINT) (1 + ((1 + lg2) << 1))', '.n=(HZ_UINT) (1 + (lg2 << 1) + (lg2 ? 2 : 1))')
B('log2', 'C09', U, 'while (n > 0) {\n        n >>= 1;\n        count++;\n    }\n    return --count;', 'while ((uint32_t) n > 0) {\n        n >>= 1;\n        count++;\n    }\n    return count ? --count : 0;')
B('unary-read', 'C09', U, 'while (readfunc(1)) n++;\n    return n + 1;', 'while (readfunc(1)) n++;\n    return n ? n + 1 : 0;')
R('unary-write', 'C09', U, 'while (n > 1) {\n        writefunc(1, 1);\n        n--;\n    }', 'for (uint64_t left = n; left > 1; --left) {\n        writefunc(1, 1);\n    }')
B('u64buf', 'C10', U, 'for (int i = 7; i >= 0; i--) {\n        x <<= 0x8;\n        x += buf[i];', 'for (int i = 7; i >= 0; i--) {\n        x <<= 0x8;\n        x |= (int) buf[i] << (i == 7 ? 0 : 0);\n        if (i == 0) x &= ~(0ull) >> 1;')
B('vecbin', 'C10', U, '((bits >> 3) + ((bits & 0x7) != 0))', '((bits >> 3) + 1)')
B('u32tail', 'C10', U, 'if (((i + 1) & 3) == 0) {', 'if (((i + 1) & 3) == 0 && i < 0xc) {')
# --- C11
S = 'hzip_core/utils/stack.h'
B('stk-pop', 'C11', S, 'if (index > 1) {', 'if (index > 0) {')
B('stk-size', 'C11', S, 'count += bufsize;', 'count += index;')
B('stk-empty', 'C11', S, 'return buffer == nullptr;', 'return index == 0 || buffer == nullptr || buffer->prev == nullptr && index == bufsize;')
# --- C12..C14
K = 'hzip_core/kernel/hzrans/'
B('rans-ub', 'C12', K + 'hzrans64.cpp', 'if (x >= upper_bound) {', 'if (x > upper_bound) {')
B('rans-lb', 'C12', K + 'hzrans64.cpp', 'if (x < state->lower_bound) {', 'if (x <= state->lower_bound) {')
B('rans-cnt', 'C12', K + 'hzrans64_codec.cpp', 'return hzrans64_encoder_output{.data = _data, .n = state->count};', 'return hzrans64_encoder_output{.data = _data, .n = state->count > 3 ? state->count : 3};')
B('rans-scale', 'C12', K + 'hzrans64_codec.cpp', '''    size = buffer_size;

    if (scale > 31) scale = 31;''', '''    size = buffer_size;

    if (scale > 30) scale = 30;''')
R('rans-flush', 'C12', K + 'hzrans64.cpp', 'data->push(state->x >> 32);\n    data->push(state->x >> 0);', 'data->push((state->x >> 32) & 0x7fffffff);\n    data->push(state->x >> 0);')
R('norm-res', 'C13', K + 'hzrans64.cpp', 'for (uint64_t i = 0; ssum > 0; i = (i + 1) % state->size, ssum--) {', 'for (uint64_t i = 0; ssum > 0 && i < state->size; i++, ssum--) {')
B('norm-u32', 'C13', K + 'hzrans64.cpp', 'uint64_t value = 1 + (freq[i] + 1) * mul_factor / sum;', 'uint64_t value = 1 + (uint32_t) ((freq[i] + 1) * mul_factor) / sum;')
B('norm-zero', 'C13', K + 'hzrans64.cpp', 'uint64_t value = 1 + (freq[i] + 1) * mul_factor / sum;\n        ssum += value - 1;', 'uint64_t value = (freq[i] + 1) * mul_factor / sum;\n        ssum += value;')
F = 'hzip_core/models/first_order_context.cpp'
B('foc-start', 'C14', F, '_prev_symbol = symbol;\n    _has_started = true;', '_prev_symbol = symbol;\n    _has_started = symbol != 0;')
B('foc-revert', 'C14', F, '_context_map[prev_symbol][next_symbol] -= delta;', '_context_map[next_symbol][prev_symbol] -= delta;')
B('foc-delta', 'C14', F, '_context_map[_prev_symbol][symbol] += delta;', '_context_map[_prev_symbol][symbol] += _prev_symbol == symbol ? 1 : delta;')
# --- C15, C16, C17
BL = 'hzip_core/blob/blob.cpp'
B('par-sign', 'C15', BL, 'return std::stoull(params[key]);', 'return std::stoul(params[key].substr(0, 19));')
B('par-key', 'C15', BL, '''        for (uint64_t j = 0; j < str_len; j++) {
            sstream << static_cast<char>(stream.read(8));
        }

        std::string key''', '''        for (uint64_t j = 0; j < (uint8_t) str_len; j++) {
            sstream << static_cast<char>(stream.read(8));
        }

        std::string key''')
B('par-ll', 'C15', BL, 'return std::stoll(params[key]);', 'return (int64_t) std::stoi(params[key]);')
B('ev-eq', 'C16', BL, 'status = size < o_size;', 'status = size <= o_size;')
B('ev-mst', 'C16', BL, 'if (!mstate->is_empty()) {', 'if (!mstate->is_empty() && o_size > 0) {')
B('unc-size', 'C17', 'hzip_codec/uncompressed/uncompressed.cpp', 'if (blob->size != blob->o_size) {', 'if (blob->size > blob->o_size) {')
B('unc-dec', 'C17', 'hzip_codec/uncompressed/uncompressed.cpp', 'dblob->o_size = blob->o_size;\n\n    dblob->data = rainman::ptr<uint8_t>(blob->size);', 'dblob->o_size = blob->o_size;\n\n    dblob->data = blob->data;')
# --- C18, C19
V = 'hzip_codec/victini/victini.cpp'
B('vic-last', 'C18', V, 'if (cdict[prev_symbol][i] > bs) {\n                    symbol = i - 1;', 'if (i > 0 && cdict[prev_symbol][i] >= bs) {\n                    symbol = i - 1;')
B('vic-ff', 'C18', V, 'uint8_t symbol = 0xff;', 'uint8_t symbol = 0xfe;')
B('vic-hdr', 'C18', V, 'header.raw = rainman::ptr<uint8_t>(8);\n\n    hz_u64_to_u8buf(bwt_index, header.raw);', 'header.raw = rainman::ptr<uint8_t>(8);\n\n    hz_u64_to_u8buf(bwt_index & 0xff, header.raw);')
B('vic-first', 'C18', V, 'state->bs = ((uint64_t) data[index]) << 16;', 'state->bs = ((uint64_t) data[index] & 0x7f) << 16;')
R('vic-norm', 'C18 C19', V, 'dsum = 16777216 - dsum;\n        for (int k = 0; dsum > 0; k = (k + 1) & 0xff, dsum--) {', 'dsum = 16777216 - dsum;\n        for (int k = 0; dsum > 0 && k < 0xff; k++, dsum--) {')
B('vic-zero', 'C19', V, 'row[k] = 1 + (row[k] * 16776960 / sum);', 'row[k] = (row[k] * 16777216 / sum);')
B('vic-train', 'C19', V, 'target[k] += row[k];', 'target[k] = row[k];')
B('vic-alg', 'C19', V, '_model_transform(mstate, dict, cdict, data, length, true);\n    mstate->alg = hzcodec::algorithms::VICTINI;', '_model_transform(mstate, dict, cdict, data, length, true);\n    if (length > 0) mstate->alg = hzcodec::algorithms::VICTINI;')
# --- C21, C22
G = P + 'png_bundle.cpp'
B('png-16', 'C21', G, 'if (bit_depth == 16) {', 'if (bit_depth == 16 && nchannels < 4) {')
R('png-pass', 'C21', G, 'int number_of_passes = png_set_interlace_handling(png_ptr);\n', '')
B('png-pal', 'C21', G, 'for (int i = 0; i < num_colors; i++) {\n            colors[i]', 'for (int i = 0; i < num_colors - 1; i++) {\n            colors[i]')
B('png-trunc', 'C21', G, 'if (size * n > buffer.size() - index) {', 'if (index > buffer.size()) {')
C = 'hzip_codec/codec_provider.'
B('cp-bs', 'C22', C + 'cpp', '{algorithms::VICTINI,      0x400000}', '{algorithms::VICTINI,      0}')
B('cp-unk', 'C22', C + 'h', '''            if (CodecProvider::codec_map.contains(alg)) {
                return CodecProvider::codec_map[alg];
            } else {
                throw CodecErrors::ResourceResolutionException("Failed to resolve codec");
            }''', '''            return CodecProvider::codec_map[alg];''')
B('cp-str', 'C22', C + 'h', 'if (CodecProvider::strmap.contains(alg)) {', 'if (CodecProvider::strmap.contains(alg) || alg == 0x3) {')
# --- archive
A = 'hzip_storage/archive/archive.cpp'
B('ar-split', 'C23 C24', A, 'if (diff < 0x48 && diff > 0) {', 'if (diff < 0x40 && diff > 0) {')
B('ar-diff', 'C24', A, 'if (fit_diff > 0) {', 'if (fit_diff > 0x48) {')
B('ar-fraglen', 'C24', A, 'metadata.fragments[fragment_index].length = fit_diff - 0x48;', 'metadata.fragments[fragment_index].length = fit_diff;')
B('ar-58', 'C23', A, 'uint64_t blob_count = read(0x3A);', 'uint64_t blob_count = read(0x38);')
B('ar-scanfrag', 'C24', A, '    // Skip data block\n    seek(fragment.length);', '    // Skip data block\n    if (fragment.length > 0x140) seek(fragment.length); else seek(fragment.length & ~0x3full);')
B('ar-fragsof', 'C23 C24', A, 'fragment.sof = metadata.eof - 0x8;', 'fragment.sof = metadata.eof;')
B('ar-eof', 'C23 C24', A, '''        stream->seek_to(metadata.eof);
        metadata.eof += 0x48 + length;
    }

    // Update metadata
    metadata.mstate_aux_map''', '''        stream->seek_to(metadata.eof);
        metadata.eof += 0x40 + length;
    }

    // Update metadata
    metadata.mstate_aux_map''')
B('ar-aux', 'C23', A, 'metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(mstate_id, sof - 0x8));', 'metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(mstate_id, sof));')
B('ar-inv', 'C25', A, 'metadata.mstate_inv_aux_map[mstate_id] = true;\n            break;', 'break;')
B('ar-inv2', 'C25', A, 'metadata.mstate_inv_aux_map[id] = true;\n', '')
B('ar-dep', 'C25', A, 'if (metadata.dep_counter[id] > 1) {', 'if (metadata.dep_counter[id] > 2) {')
B('ar-dep2', 'C25', A, '    metadata.blob_map[blob_id] = sof;\n    hza_increment_dep(mstate_id);', '    metadata.blob_map[blob_id] = sof;\n    if (!hza_check_mstate_deps(mstate_id)) hza_increment_dep(mstate_id);')
B('ar-rmdep', 'C25', A, 'if (hza_check_mstate_deps(id)) {', 'if (hza_check_mstate_deps(id) && metadata.dep_counter[id] > 1) {')
B('ar-rmmst', 'C23 C24', A, '''        metadata.fragments.push_back(HZ_ArchiveFragment{
                .sof=sof,
                .length=stream->read(0x40)
        });

        metadata.mstate_map.erase(id);''', '''        metadata.mstate_map.erase(id);''')
B('ar-rmorder', 'C24', A, '''        stream->write(HZ_ArchiveMarker::EMPTY, 0x8);

        metadata.fragments.push_back(HZ_ArchiveFragment{
                .sof=sof,
                .length=stream->read(0x40)
        });

        // remove dependency
        stream->seek(0x40);''', '''        stream->write(HZ_ArchiveMarker::EMPTY, 0x8);

        metadata.fragments.push_back(HZ_ArchiveFragment{
                .sof=sof,
                .length=stream->read(0x40) - 0x48
        });

        // remove dependency
        stream->seek(0x40);''')
B('ar-uninst', 'C26', A, '''    hza_rm_mstate(id);

    stream->seek_to(sof);
    stream->write(HZ_ArchiveMarker::EMPTY, 0x8);

    metadata.fragments.push_back(HZ_ArchiveFragment{
            .sof=sof,
            .length=stream->read(0x40)
    });
''', '''    stream->seek_to(sof);
    stream->write(HZ_ArchiveMarker::EMPTY, 0x8);

    metadata.fragments.push_back(HZ_ArchiveFragment{
            .sof=sof,
            .length=stream->read(0x40)
    });

    hza_rm_mstate(id);
''')
B('ar-post', 'C26', A, '''        // Unlock archive, it was not opened.
        sem_post(archive_mutex.pointer());
''', '')
B('ar-close', 'C23', A, '''    stream->seek_to(metadata.eof);
    stream->write(HZ_ArchiveMarker::END, 0x8);
    stream->flush();

    sem_post''', '''    stream->seek_to(metadata.eof);
    stream->flush();

    sem_post''')
B('ar-closesem', 'C36 C23 C26', A, '''    stream->flush();

    sem_post(archive_mutex.pointer());''', '''    stream->flush();
''')
B('ar-guard', 'C23', A, '''rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
    std::lock_guard<std::mutex> guard(mutex);''', '''rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {''')
B('ar-guard2', 'C23', A, '''uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
    std::lock_guard<std::mutex> guard(mutex);''', '''uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {''')
B('ar-unique', 'C23', A, 'while (metadata.blob_map.contains(blob_id)) {', 'if (metadata.blob_map.contains(blob_id)) {')
B('ar-status', 'C23', A, 'blob->status = blob->size < blob->o_size;', 'blob->status = blob->size != blob->o_size + 1;')
B('ar-blobseek', 'C23 C25', A, 'seek((header_length << 3) + 0x40);\n    uint64_t mstate_id', 'seek((header_length << 2) + 0x40);\n    uint64_t mstate_id')
B('ar-version', 'C23 C26', A, 'if (metadata.version != HZ_ARCHIVE_VERSION) {', 'if (metadata.version > HZ_ARCHIVE_VERSION) {')
B('ar-int', 'C23', A, 'mstate->alg = (hzcodec::algorithms::ALGORITHM) stream->read(0x40);', 'mstate->alg = (hzcodec::algorithms::ALGORITHM) (stream->read(0x40) & 1);')
R('ar-first', 'C23 C24 C25', A, 'if (diff < fit_diff) {', 'if (diff <= fit_diff) {')
R('ar-alloc', 'C23 C24', A, '''            // If perfect fit then erase fragment.
            metadata.fragments.erase(metadata.fragments.begin() + fragment_index);''', '''            // If perfect fit then drop the fragment.
            metadata.fragments[fragment_index] = metadata.fragments.back();
            metadata.fragments.pop_back();''')
R('ar-depr', 'C23 C25', A, '''    if (!metadata.dep_counter.contains(id)) {
        metadata.dep_counter[id] = 1;
    } else {
        metadata.dep_counter[id]++;
    }''', '''    auto it = metadata.dep_counter.try_emplace(id, 0).first;
    it->second += 1;''')
R('ar-rmreorder', 'C23 C24 C25 C26', A, '''        // erase entry from blob map
        metadata.blob_map.erase(id);
    } else {
        throw''', '''        metadata.blob_map.erase(metadata.blob_map.find(id));
    } else {
        throw''')
T = 'hzip_storage/archive/archive_trie.h'
B('tr-anc', 'C27', T, 'while (curr->children.size() < 2 && curr->parent != nullptr) {', 'while (curr->children.size() < 3 && curr->parent != nullptr) {')
B('tr-anc1', 'C27', T, 'while (curr->children.size() < 2 && curr->parent != nullptr) {', 'while (false) {')
B('tr-leaf', 'C27', T, '''                if (is_leaf_node(curr)) {
                    throw ArchiveErrors::InvalidOperationException("A file exists in the path prefix");
                }

                curr->children[token] =''', '''                curr->children[token] =''')
B('tr-dir', 'C27', T, '''        if (is_dir_node(curr)) {
            throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
        }

        curr->value = val;''', '''        if (is_dir_node(curr) && curr->children.size() > 1) {
            throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
        }

        curr->value = val;''')
B('tr-key', 'C27', T, 'curr->children[token]->key = token;', 'curr->children[token]->key = token.substr(0, 15);')
B('tr-list', 'C27 C34', T, '.is_leaf=entry.second->is_leaf,', '.is_leaf=curr->is_leaf || entry.second->children.size() < 2,')
R('tr-range', 'C27', T, 'return node->children.size() > 0;', 'return !node->children.empty();')
# --- validation, semaphore
W = 'hzip_core/utils/validation.h'
B('va-last', 'C28', W, 'for (int i = 0; i < path.length() - 1; i++) {', 'for (int i = 0; i + 2 < path.length(); i++) {')
B('va-cstr', 'C28', W, 'for (char c : path) {', 'for (const char *p = path.c_str(); *p; p++) {\n        char c = *p;')
B('va-first', 'C28', W, "if (path[i] == '/' && path[i + 1] == '/') {", "if (i > 0 && path[i] == '/' && path[i + 1] == '/') {")
R('va-find', 'C28', W, """        if (path[i] == '/' && path[i + 1] == '/') {""", """        if (path[i] == path[i + 1] && path[i + 1] == 0x2f) {""")
E = 'hzip_core/utils/semaphore.cpp'
B('se-one', 'C29', E, '_cv.notify_all();', 'if (_count == 1) _cv.notify_one();')
B('se-if', 'C29', E, '_cv.wait(lk, [this] { return _count > 0; });', 'if (_count == 0) _cv.wait(lk);')
B('se-nolock', 'C29', E, '''void Semaphore::release() {
    std::unique_lock<std::mutex> lk(_mutex);
    _count++;''', '''void Semaphore::release() {
    _count++;''')
R('se-notify', 'C29', E, '_count++;\n    _cv.notify_all();', '++_count;\n    lk.unlock();\n    _cv.notify_one();')
# --- processor
O = 'hzip_codec/processor/processor.cpp'
B('pr-rel', 'C30', O, '''            _semaphore.release();

        }, job).detach();''', '''            if (!failed) _semaphore.release();

        }, job).detach();''')
B('pr-comp', 'C30', O, '''            try {
                HZP_STUB_CALL(job->stub->on_completed);''', '''            try {
                if (!failed) HZP_STUB_CALL(job->stub->on_completed);''')
B('pr-order', 'C30', O, '''            _semaphore.acquire();

            bool failed = false;''', '''            bool failed = false;''')
B('pr-inj', 'C31', O, 'if (replaced_mstate || !blob->status) {', 'if (replaced_mstate) {')
B('pr-inj2', 'C31', O, 'if (replaced_mstate || !blob->status) {', 'if (!blob->status) {')
B('pr-eval', 'C31', O, '        blob->evaluate(job->blob->data);\n', '')
B('pr-uninst', 'C31', O, '''        mstate = codec->train(job->blob);

        // The previous mstate is replaced only after training was successful.
        if (installed) {
            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
        }
''', '''        if (installed) {
            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
        }

        mstate = codec->train(job->blob);
''')
B('pr-train0', 'C31', O, '''        job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);

        if (!job->blob''', '''        if (!job->blob''')
B('pr-idcb', 'C31', O, '''            HZP_STUB_CALL(job->blob_id_callback, id);
        }''', '''            if (job->blob_callback == nullptr) HZP_STUB_CALL(job->blob_id_callback, id);
        }''')
# --- socket, api
K2 = 'hzip_network/api/handlers/socket_class.cpp'
B('so-rec', 'C32', K2, 'if (recv(_sock, buf, n, MSG_WAITALL) != (ssize_t) n) {', 'if (recv(_sock, buf, n, MSG_WAITALL) < 0) {')
B('so-flag', 'C32', K2, 'if (recv(_sock, buf, n, MSG_WAITALL) != (ssize_t) n) {', 'if (recv(_sock, buf, n, n > 8 ? 0 : MSG_WAITALL) != (ssize_t) n) {')
B('so-u16', 'C32', K2, 'if (send(_sock, buf, n, 0) != (ssize_t) n) {', 'if (send(_sock, buf, n, 0) < (ssize_t) (n & 0xff)) {')
B('so-err', 'C32', K2, 'uint16_t len = msg.length();\n\n    if (send', 'uint8_t len = msg.length();\n\n    if (send')
B('so-sync', 'C32', K2, '''    if (send(_sock, &word, sizeof(word), 0) != (ssize_t) sizeof(word)) {
        throw ApiErrors::ConnectionError("Insufficient data sent");
    }

//    if (errno != 0) {
//        throw ApiErrors::ConnectionError(std::string("Send operation failed: ") + strerror(errno));
//    }
}

void SocketInterface::error''', '''    send(_sock, &word, sizeof(word), 0);
}

void SocketInterface::error''')
AP = 'hzip_network/api/api.cpp'
B('api-tok', 'C33', AP, 'if (token == xtoken) {', 'if ((uint32_t) token == (uint32_t) xtoken) {')
B('api-end', 'C33', AP, '''        HZAPI_LOG(ERROR, e.what());
        end();
        return;
    }

    while''', '''        HZAPI_LOG(ERROR, e.what());
        close(_sock);
        return;
    }

    while''')
B('api-close', 'C33', AP, '''                case API_CTL_CLOSE: {
                    end();
                    return;''', '''                case API_CTL_CLOSE: {
                    return;''')
B('api-conn', 'C33', AP, '''        } catch (ApiErrors::ConnectionError &e) {
            HZAPI_LOG(ERROR, e.what());
            end();
            return;
        } catch''', '''        } catch (ApiErrors::ConnectionError &e) {
            HZAPI_LOG(ERROR, e.what());
            return;
        } catch''')
B('api-connsw', 'C33', AP, '''        } catch (ApiErrors::ConnectionError &e) {
            HZAPI_LOG(ERROR, e.what());
            end();
            return;
        } catch (std::exception &e) {''', '''        } catch (std::exception &e) {''')
B('api-dbl', 'C33', AP, '''    close(_sock);
    HZAPI_LOG(INFO, "Closed session");
    _semaphore->release();''', '''    close(_sock);
    HZAPI_LOG(INFO, "Closed session");
    _semaphore->release();
    if (_port == 0) _semaphore->release();''')
B('tok-long', 'C33', U, 'y[i & 0x7] ^= pwd[i];', 'y[i & 0x7] = x ^ pwd[i];')
B('tok-8', 'C33', U, 'for (int i = 0; i < pwd.length(); i++) {\n        y[i & 0x7]', 'for (int i = 0; i < pwd.length() && i < 4; i++) {\n        y[i & 0x7]')
Q = 'hzip_network/api/handlers/query.cpp'
B('qu-pig', 'C34', Q, '''            case QUERY_CTL_LIST_MSTATE_SYSTEM: {
                if (!piggy_back) {
                    throw ApiErrors::InvalidOperationError("Piggyback was disabled");
                }
''', '''            case QUERY_CTL_LIST_MSTATE_SYSTEM: {''')
B('qu-len', 'C34', Q, '''                auto list = archive.inner()->list_file_system(target.inner().pointer());

                uint64_t count = list.size();
                HZ_SEND(&count, sizeof(count));

                for (const auto &elem : list) {
                    uint16_t len''', '''                auto list = archive.inner()->list_file_system(target.inner().pointer());

                uint64_t count = list.size();
                HZ_SEND(&count, sizeof(count));

                for (const auto &elem : list) {
                    if (elem.entry.empty() || elem.entry[0] == '.') continue;
                    uint16_t len''')
B('qu-val', 'C34', Q, '                hz_validate_path(target.inner().pointer());\n', '')
B('qu-term', 'C34', Q, 'target = rainman::ptr<char>(target_len + 1);\n                target.inner()[target_len] = 0;', 'target = rainman::ptr<char>(target_len + 1);\n                if (target_len < 2) target.inner()[target_len] = 0;')
B('qu-del', 'C34', Q, 'archive.inner()->uninstall_mstate(target.inner().pointer());', 'if (archive.inner()->check_mstate_exists(target.inner().pointer())) archive.inner()->uninstall_mstate(target.inner().pointer());')
B('qu-swap', 'C34', Q, 'auto list = archive.inner()->list_mstate_system(', 'auto list = archive.inner()->list_file_system(')
R('qu-if', 'C34', Q, 'if (archive.is_none()) {\n                    throw ApiErrors::InvalidOperationError("Archive not provided");\n                }\n\n                if (target.is_none()) {\n                    throw ApiErrors::InvalidOperationError("Target not provided");\n                }\n\n                archive.inner()->remove_file', 'if (target.is_none()) {\n                    throw ApiErrors::InvalidOperationError("Target not provided");\n                }\n\n                if (archive.is_none()) {\n                    throw ApiErrors::InvalidOperationError("Archive not provided");\n                }\n\n                archive.inner()->remove_file')
Z = 'hzip_network/api/handlers/streamer.cpp'
B('st-exists', 'C35', Z, '''                    if (archive.inner()->check_file_exists(dest.inner().pointer())) {
                        throw ApiErrors::InvalidOperationError("File already exists");
                    }
''', '')
B('st-fail', 'C35', Z, '''                // The errors were already reported, the data is incomplete.
                if (failed) {
                    return;
                }
''', '')
B('st-piggy', 'C35', Z, 'if (!piggy_back && dest.is_none()) {', 'if (!piggy_back && dest.is_none() && archive.is_none()) {')
B('st-blobs', 'C35', Z, 'for (int i = 0; i < blob_ids.size(); i++) {\n                        blob_id_arr[i] = blob_ids[i];', 'for (int i = 0; i < blob_ids.size(); i++) {\n                        blob_id_arr[i] = blob_ids[i && i + 1 == blob_ids.size() ? 0 : i];')
B('st-min', 'C35', Z, '                data_len -= max_blob_size;\n\n                    _slot->acquire();\n                    _slot->release();\n                }\n\n                // The', '                data_len -= max_blob_size;\n\n                    _slot->acquire();\n                    _slot->release();\n                    if (data_len < max_blob_size) data_len = 0;\n                }\n\n                // The')
B('st-dsize', 'C35', Z, '''                        HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
                        HZ_SEND(dblob->data.pointer(), dblob->o_size);''', '''                        HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
                        HZ_SEND(dblob->data.pointer(), dblob->size);''')
B('st-mstalg', 'C35', Z, 'mstate->alg = (hzcodec::algorithms::ALGORITHM) mstate_algorithm;', 'mstate->alg = hzcodec::algorithms::VICTINI;')
B('st-rdpig', 'C35', Z, '''                if (!piggyback) {
                    throw ApiErrors::InvalidOperationError("Null operations are not allowed");
                }
''', '')
B('st-slot', 'C35', Z, '''                for (uint64_t i = 0; i < blob_count; i++) {
                    _slot->acquire();
                    auto src_blob''', '''                for (uint64_t i = 0; i < blob_count; i++) {
                    auto src_blob''')
B('st-wait', 'C35', Z, '''                    // Cycle the slot
                    _slot->acquire();
                    _slot->release();
''', '')
# --- providers, cache, config, cl_helper
PR = 'hzip_network/api/providers/archive_provider.cpp'
B('ap-load', 'C36', PR, '''        archive->load();

        arch_map[path] = archive;''', '''        arch_map[path] = archive;
        archive->load();''')
B('ap-lock', 'C36', PR, '''    std::lock_guard<std::mutex> guard(mutex);
    rainman::ptr<HZ_Archive> archive;''', '''    rainman::ptr<HZ_Archive> archive;''')
B('ap-close', 'C36', PR, '''        entry.second->close();
    }''', '''        entry.second->close();
        break;
    }''')
CA = 'hzip_core/runtime/cache_provider.cpp'
B('ca-mtx', 'C37', CA, '_rainman_cache_mutexes[_rainman_cache_index]\n', '_rainman_cache_mutexes[_rainman_cache_index / 2]\n')
B('ca-mod', 'C37', CA, '(_rainman_cache_index + 1) % _rainman_cache_count;', '_rainman_cache_index + 1 < _rainman_cache_count ? _rainman_cache_index + 1 : _rainman_cache_count > 2;')
B('ca-lock', 'C37', CA, '    std::scoped_lock<std::mutex> lock(_rainman_cache_mutex);\n', '')
B('ca-name', 'C37', CA, 'std::to_string(index), page_size', 'std::to_string(index % 10), page_size')
B('ca-reset', 'C37', CA, '    _rainman_cache_index = 0;\n}', '}')
CO = 'hzip_core/runtime/config.cpp'
B('co-mem', 'C38', CO, 'Config::host_max_memory = std::stoull(_host_max_memory);', 'Config::host_max_memory = std::stoul(_host_max_memory) & 0xffffffff;')
B('co-thr', 'C38', CO, 'if (_processor_threads != nullptr) {', 'if (_processor_threads != nullptr && _api_threads == nullptr) {')
B('co-env', 'C38', CO, 'std::getenv("HZIP_API_TIMEOUT")', 'std::getenv("HZIP_TIMEOUT")')
B('co-re', 'C38', CO, '''        Config::opencl_device_regex = _opencl_device_regex;
        hzopencl::''', '''        hzopencl::''')
B('co-cache', 'C38', CO, 'init_cache(cache_file, cache_count, page_size);', 'init_cache(cache_file, page_size, cache_count);')
CLH = 'hzip_core/opencl/cl_helper.cpp'
B('cl-clear', 'C39', CLH, '''    _devices = filtered_devices;

    ProgramProvider::clear();''', '''    _devices = filtered_devices;
''')
B('cl-idx', 'C39', CLH, '_device_index = (_device_index + 1) % _device_count;', '_device_index = (_device_index + 1) % (_device_count + 1);')
B('cl-idx0', 'C39', CLH, '    _device_count = device_count;\n    _device_index = 0;', '    _device_count = device_count;')
B('cl-empty', 'C39', CLH, '''    if (_devices.empty()) {
        throw OpenCLErrors::InvalidOperationException("No devices were loaded");
    }

    return _devices;''', '''    return _devices;''')
B('cl-mtx', 'C39', CLH, 'DeviceProvider::get_mutex(_device_index));', 'DeviceProvider::get_mutex(0));')
B('cl-part', 'C39', CLH, '''            programs.push_back(program);
        }

        _program_map[program_name] = programs;''', '''            programs.push_back(program);
            _program_map[program_name] = programs;
        }
''')
B('cl-unreg', 'C39', CLH, '''    if (!_program_map.contains(program_name)) {
        throw OpenCLErrors::InvalidOperationException("Failed to load unregistered OpenCL program");
    }
''', '')
B('cl-bind', 'C39', CLH, '_devices.insert(_devices.end(), platform_devices.begin(), platform_devices.end());', '_devices.insert(_devices.begin(), platform_devices.begin(), platform_devices.end());')
# --- errors, jpeg
B('er-what', 'C40', 'hzip_storage/errors/archive.h', '''        InvalidOperationException(const std::string &msg) {
            this->msg = "hzip_core.archive: Invalid operation: " + msg;
        }''', '''        InvalidOperationException(const std::string &msg) : msg(msg) {
        }''')
B('er-dang', 'C40', 'hzip_storage/errors/archive.h', '''        TargetNotFoundException(const std::string &msg) {
            this->msg = "hzip_core.archive: Target not found: " + msg;
        }

        [[nodiscard]] const char *what() const noexcept override {
            return msg.c_str();
        }''', '''        TargetNotFoundException(const std::string &msg) {
            this->msg = msg;
        }

        [[nodiscard]] const char *what() const noexcept override {
            std::string full = "hzip_core.archive: Target not found: " + msg;
            return full.c_str();
        }''')
J = P + 'jpeg_codec.h'
B('jp-q16', 'C41', J, 'uint16_t cof[0x40] = {0};', 'uint8_t cof[0x40] = {0};')
B('jp-tbl', 'C41', J, 'qtables[tblno].is_empty = false;', 'qtables[tblno].is_empty = tblno == 3;')
B('jp-comp', 'C41', J, 'comp->v_samp_factor = spec.v_samp_factor;', 'comp->v_samp_factor = spec.h_samp_factor;')
B('jp-ncomp', 'C41', J, 'info->num_components = num_components;', 'info->num_components = num_components > 3 ? 3 : num_components;')
B('jp-order', 'C41', J, '''            info->data_precision = data_precision;
            info->CCIR601_sampling = CCIR601_sampling;
''', '')
