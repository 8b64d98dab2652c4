"""Which harnesses decide which property, and with what bounds."""
PROPS = {}
def prop(pid, jobs, **kw): PROPS[pid] = dict(jobs=jobs, **kw)
def job(name, harness, srcs, runs, **kw): return dict(name=name, harness=harness, srcs=list(dict.fromkeys(srcs)), runs=runs, **kw)

prop('C01', [job('delta', 'c01_delta.cpp', ['hzip_core/preprocessor/delta.cpp'], [dict(n=8)], thorough=[dict(n=24)], reach=['roundtrip'], opts={'plain': 1}, bounds='every length 0..n, every 32-bit content; n=8 quick, 24 thorough')])
prop('C02', [job('step', 'c02_zigzag.cpp', [], [dict(mode=0), dict(mode=2)], reach=['last', 'step', 'two'], bounds='one step from every cell of every grid, all 32-bit W, H, x, y (with induction over steps this covers whole traversals)'),
             job('full', 'c02_zigzag.cpp', [], [dict(mode=1, n=5)], thorough=[dict(mode=1, n=12)], reach=['empty'], bounds='complete iterations of all grids up to n x n, n=5 quick, 12 thorough')])
prop('C11', [job('stack', 'c11_stack.cpp', [], [dict(level=0, k=9, drain=1), dict(level=65534, k=7), dict(level=65536, k=7), dict(level=131072, k=6), dict(level=65536, k=2, drain=1)],
                 thorough=[dict(level=0, k=14, drain=1), dict(level=65534, k=11), dict(level=65536, k=11), dict(level=131072, k=11), dict(level=65536, k=4, drain=1), dict(level=131073, k=3, drain=1)],
                 opts={'max-steps': 400000000}, reach=['pop-empty', 'drained'], bounds='every push/pop history of k operations (k=6..9 quick, 11..14 thorough) from fill levels 0, 65534, 65536, 131072, all 32-bit values; complete drains')])
prop('C03', [job('bwt', 'c03_bwt.cpp', [], [dict(n=4, k=3, anyk=1), dict(n=7, k=3, minn=6), dict(n=10, k=2, minn=8), dict(n=5, k=256, high=2, minn=1), {'n': 2, 'k': 3, '--index-fork': 0}],
                 thorough=[dict(n=5, k=4, anyk=1), dict(n=9, k=3, minn=8), dict(n=13, k=2, minn=11), dict(n=7, k=256, high=2, minn=1), {'n': 3, 'k': 3, '--index-fork': 0}],
                 opts={'index-fork': 2}, reach=['roundtrip', 'empty'],
                 bounds='every text up to length 4 over every alphabet of 1..3 symbols, length 6..7 over 3, 8..10 over 2, up to 5 over 256 (symbols 0, 254, 255); thorough: up to 5/4, 8..9/3, 11..13/2, 7/256')],
     outside='longer texts; element types other than int16/int32 (the instantiation the codec uses); symbols >= alphabet size')
prop('C04', [job('mtf', 'c04_mtf.cpp', [], [dict(n=4, k=4)], thorough=[dict(n=7, k=5)], opts={}, reach=['roundtrip'], bounds='every sequence up to length n over every alphabet of 1..k symbols; quick 4/4, thorough 7/5; transformed and restored twice by the same object'),
             job('large', 'c04_mtf.cpp', [], [dict(n=2, k=258, kmin=257, smin=250)], thorough=[dict(n=3, k=260, kmin=255, smin=252)], reach=['roundtrip'], bounds='alphabets of 257..258 (255..260) symbols, sequences of up to 2 (3) of their last symbols'),
             job('mtf16', 'c04_mtf.cpp', [], [dict(n=3, k=3)], defs=['-DITYPE=int16_t'], bounds='same, int16 elements, 3/3')],
     outside='longer sequences and larger alphabets')
prop('C29', [job('threads', 'c29_semaphore.cpp', ['hzip_core/utils/semaphore.cpp'], [dict(mode=0, n=2, rounds=1), dict(mode=0, n=3, rounds=1, counts=2), dict(mode=1, n=2), dict(mode=1, n=3)],
                 thorough=[dict(mode=0, n=2, rounds=2), dict(mode=0, n=3, rounds=1, counts=3), dict(mode=0, n=3, rounds=2, counts=2), dict(mode=1, n=3), dict(mode=1, n=4)], opts={'max-preempt': 3}, reach=['workers', 'takers'],
                 bounds='every interleaving with up to 3 preemptions of 2..3 workers on 1..2 permits and of 2..3 waiting threads released one by one; thorough: 2 rounds, 4 threads'),
             job('counts', 'c29_semaphore.cpp', ['hzip_core/utils/semaphore.cpp'], [dict(mode=2, n=4)], thorough=[dict(mode=2, n=7)], reach=['counts', 'drained'], bounds='every 64-bit initial count >= 1, every sequence of 4 (7) operations')],
     outside='more threads, more preemptions; the C++ memory model (interleavings are sequentially consistent at lock operations)')
_SOCK = ['hzip_network/api/handlers/socket_class.cpp']
prop('C32', [job('frames', 'c32_socket.cpp', _SOCK, [dict(n=3)], thorough=[dict(n=8)], reach=['failed', 'done'], bounds='every message of up to 3 (8) bytes, every outcome (-1, 0, short, complete) of every transfer'),
             job('sizes', 'c32_socket.cpp', _SOCK, [dict(anysize=1)], reach=['failed', 'done'], bounds='send/receive of every message size up to 2^40, every outcome of every transfer')],
     outside='signals (SIGPIPE) and the kernel socket implementation: send/recv return any value their specification allows')
prop('C28', [job('short', 'c28_validation.cpp', [], [dict(mode=0, n=5)], thorough=[dict(mode=0, n=7)], reach=['accepted', 'rejected'], bounds='every byte string of length 0..5 (7)'),
             job('long', 'c28_validation.cpp', [], [dict(mode=1)], reach=['accepted', 'rejected'], opts={'max-steps': 400000000}, bounds='paths of 130 to 66000 bytes with two arbitrary neighbouring bytes at 7 positions')],
     outside='other long strings')
prop('C09', [job('codes', 'c09_codes.cpp', [], [dict(mode=0), dict(mode=1, max=60), dict(mode=2)], thorough=[dict(mode=0), dict(mode=1, max=900), dict(mode=2)], reach=['gamma', 'unary', 'log2'],
                 bounds='every Elias-gamma value 0..2^31-1 with every 8-bit suffix, every unary value 1..60 (900), the logarithm of every 64-bit value')],
     outside='unary values above the bound (the code length equals the value)')
prop('C10', [job('packing', 'c10_packing.cpp', [], [dict(mode=0), dict(mode=1, n=6), dict(mode=2, k=2), dict(mode=3, k=3)], thorough=[dict(mode=0), dict(mode=1, n=40), dict(mode=2, k=2), dict(mode=3, k=4)], reach=['u64', 'u32', 'bits'],
                 bounds='every 64-bit value; every array of up to 6 (40) words; every list of up to 2 items of 0..64 bits and up to 3 (4) items of 0,1,7,8,9,31,33,63,64 bits, all values')],
     outside='longer arrays and item lists; byte counts that are not a multiple of four')
prop('C40', [job('errors', 'c40_errors.cpp', [], [dict(n=2)], thorough=[dict(n=6)], reach=['error', 'assert'], bounds='every error class, every reason of up to 2 (6) bytes')],
     outside='longer reasons')
_CL = ['-DHZIP_ENABLE_OPENCL', '-DCL_HPP_ENABLE_EXCEPTIONS']
_HZCL = '/verif/rt/hz_cl.cpp'
prop('C39', [job('rounds', 'c39_cl_helper.cpp', ['hzip_core/opencl/cl_helper.cpp', _HZCL], [dict(mode=0)], defs=_CL, reach=['rounds', 'program', 'unknown', 'build-failed'],
                 bounds='two rounds of (load 0..3 devices with arbitrary two-character names on two platforms / filter by an arbitrary character / clear / nothing; register with any error code and build status on any device; 0..3 requests)'),
             job('history', 'c39_cl_helper.cpp', ['hzip_core/opencl/cl_helper.cpp', _HZCL], [dict(mode=1, k=2)], thorough=[dict(mode=1, k=3)], defs=_CL, reach=['history'], bounds='every history of 2 (3) operations after a first load')],
     outside='concurrent registration and device changes; regular expressions other than plain text; OpenCL drivers')
_CFG = ['hzip_core/runtime/config.cpp', 'hzip_core/runtime/cache_provider.cpp']
prop('C38', [job('plain', 'c38_config.cpp', _CFG + [_HZCL], [dict(digits=1), dict(digits=0)], thorough=[dict(digits=1), dict(digits=3), dict(digits=0, word=6)], reach=['configured'],
                 bounds='every combination of set and unset variables with any value of 1 (thorough: 3) digits, 1..5 caches; every single variable with every value of 1..19 digits (timeout: 1..9), file names and keys of up to 3 (6) arbitrary bytes'),
             job('opencl', 'c38_config.cpp', _CFG + ['hzip_core/opencl/cl_helper.cpp', _HZCL], [dict(digits=1), dict(digits=0, word=1)], defs=_CL, reach=['configured'], bounds='the same with OpenCL support and 0..2 devices')],
     outside='malformed numbers; cache counts above 5; main.cpp command line options')
prop('C37', [job('turns', 'c37_cache.cpp', ['hzip_core/runtime/cache_provider.cpp'], [dict(inits=3, n=3, k=5)], thorough=[dict(inits=3, n=5, k=12)], reach=['turns'], bounds='pools of 1..3 (5) caches, up to 3 initialisations with any page size, every number of requests up to 4+n (11+n)'),
             job('threads', 'c37_cache.cpp', ['hzip_core/runtime/cache_provider.cpp'], [dict(mode=1, rounds=1), dict(mode=1, rounds=2, threads=2)], thorough=[dict(mode=1, rounds=3), dict(mode=1, rounds=1, threads=3)], opts={'max-preempt': 3}, reach=['threads'], bounds='2 (3) threads, every interleaving with up to 3 preemptions, 1..2 (3) requests each')],
     outside='re-initialisation while requests are running; more threads and preemptions')
_RT = _CFG + ['hzip_core/opencl/cl_helper.cpp', _HZCL]
_COLOR = ['hzip_core/preprocessor/color.cpp'] + _RT
_PAETH = ['hzip_core/models/paeth.cpp'] + _RT
prop('C05', [job('planar', 'c05_color.cpp', _COLOR, [dict(w=3, h=2), dict(w=2, h=2, cpu=1)], thorough=[dict(w=5, h=5), dict(w=4, h=4, cpu=1)], defs=_CL, reach=['pixels'], bounds='every image up to 3x2 (5x5) pixels, every bit depth 1..16, every sample below 2^depth')],
     outside='larger images (pixels are shown to be converted independently); images above one million pixels on a GPU (C08)')
prop('C06', [job('pixel', 'c06_pixel.cpp', [_HZCL], [dict()], defs=_CL, reach=['pixel'], bounds='every pixel of 8, 16, 32 and 64 bit unsigned and 8, 16 bit signed samples, every conversion kind')], outside='32-bit and wider signed samples (signed overflow)')
prop('C07', [job('paeth', 'c07_paeth.cpp', _PAETH, [dict(w=3, h=2, ch=2), dict(w=2, h=3, ch=1, cpu=1)], thorough=[dict(w=4, h=4, ch=3), dict(w=3, h=3, ch=2, cpu=1)], defs=_CL, reach=['filtered'], opts={'index-fork': 0}, bounds='every image up to 3x2x2 and 2x3x1 (4x4x3), every bit depth 1..16, every sample below 2^depth')],
     outside='larger images (each sample depends on three neighbours only); GPU dispatch above 49152 samples (C08)')
prop('C08', [job('color', 'c08_kernels.cpp', _COLOR + ['hzip_core/models/paeth.cpp'], [dict(w=3, h=2, kernels=7, local=3), dict(w=2, h=1, kernels=3, local=2, devices=2)], thorough=[dict(w=4, h=3, kernels=13, local=5)], defs=_CL, reach=['kernel'], opts={'index-fork': 0},
                 cl=dict(driver='dump_color.cpp', srcs=_COLOR), bounds='every image of 1x1 to 3x2 (4x3) pixels, every depth, 1..7 (13) kernel instances, work groups of 1..3 (5), both orders of the work items, in place and not'),
             job('paeth', 'c08_kernels.cpp', _COLOR + ['hzip_core/models/paeth.cpp'], [dict(w=3, h=2, ch=1, kernels=7, local=3), dict(w=2, h=2, ch=2, kernels=5, local=2, devices=2)], thorough=[dict(w=4, h=3, ch=2, kernels=13, local=4)], defs=_CL + ['-DPAETH=1'], reach=['kernel'], opts={'index-fork': 0},
                 cl=dict(driver='dump_paeth.cpp', srcs=_PAETH), bounds='the same for the Paeth filter, 1..2 channels')],
     outside='empty images; larger images; work items running at the same time (their order is varied, the kernels use no shared state); the OpenCL driver; the image codec kernel (C20)')
prop('C41', [job('header', 'c41_jpeg.cpp', [], [dict(mode=0), dict(mode=1)], reach=['restored', 'read'], bounds='every header with 0..4 components, any subset of quantisation tables, any values in the ranges libjpeg reports; images of up to 3 components of 1..2 x 1..2 blocks with arbitrary coefficients')],
     outside='libjpeg itself (a model reports arbitrary headers); JFIF version and density, which are not captured; writing coefficients')
_RANS = ['hzip_core/kernel/hzrans/hzrans64.cpp', 'hzip_core/kernel/hzrans/hzrans64_codec.cpp']
prop('C12', [job('step', 'c12_rans.cpp', _RANS, [dict(mode=0, scale=s) for s in (8, 12, 14, 16, 24, 31)], reach=['word', 'noword'], bounds='every coder state, every symbol frequency and offset at scales 8, 12, 14, 16, 24, 31 (with induction over steps this covers messages of any length)'),
             job('slot', 'c12_rans.cpp', _RANS, [dict(mode=1, n=4, scale=12), dict(mode=1, n=4, scale=24)], reach=['lookup'], bounds='every table of 1..4 symbols, every slot'),
             job('message', 'c12_rans.cpp', _RANS, [dict(mode=2, size=2, len=2, scale=14), dict(mode=2, any=1, size=2, len=2, scale=24), dict(mode=2, any=1, size=2, len=2, scale=12), dict(mode=2, any=1, size=2, len=1, scale=31)], thorough=[dict(mode=2, size=2, len=2, scale=24), dict(mode=2, any=1, size=2, len=3, scale=24), dict(mode=2, any=1, size=3, len=2, scale=14)], reach=['message'], bounds='messages of up to 2 (3) symbols over every table of 2 (3) symbols through the encoder and decoder objects, also with an arbitrary coder state before every symbol')],
     outside='longer whole messages in one piece (the single step covers every state they pass through); tables that do not sum to the total')
prop('C13', [job('table', 'c13_ftable.cpp', _RANS[:1], [dict(n=2, scale=12, bits=8, mono=1), dict(n=2, scale=24, bits=10, mono=1), dict(n=1, scale=12), dict(n=2, scale=24), dict(n=3, scale=8), dict(n=4, scale=12), dict(n=4, scale=24)], thorough=[dict(n=2, scale=8, bits=16, mono=1), dict(n=3, scale=9), dict(n=4, scale=14), dict(n=5, scale=24, bits=16)], reach=['table'], bounds='every vector of 1..4 (5) counts below 2^32 at scales 8..24')],
     outside='larger alphabets; counts so large that count * 2^scale exceeds 64 bits; alphabets larger than 2^scale')
prop('C14', [job('history', 'c14_model.cpp', ['hzip_core/models/first_order_context.cpp'], [dict(n=3, k=2)], thorough=[dict(n=4, k=2), dict(n=2, k=4)], reach=['history'], bounds='alphabets of 1..3 (4) symbols: from every state of the model (arbitrary counts in every cell, any last symbol), every history of 2 operations (4 for two symbols) with any symbols and 64-bit amounts; with induction over operations this covers whole histories')],
     outside='larger alphabets; symbols outside the alphabet')
prop('C15', [job('bytes', 'c15_params.cpp', ['hzip_core/blob/blob.cpp'], [dict(k=2, len=1), dict(k=1, len=3)], thorough=[dict(k=2, len=2), dict(k=3, len=1), dict(k=1, len=6)], reach=['unknown', 'two'], bounds='every set of up to 2 (3) parameters with keys and values of up to 1..3 (6) arbitrary bytes'),
             job('typed', 'c15_params.cpp', ['hzip_core/blob/blob.cpp'], [dict(mode=1, digits=6)], thorough=[dict(mode=1, digits=18)], reach=['present', 'absent'], bounds='every decimal number of 1..6 (18) digits, either sign, stored or as default'),
             job('large', 'c15_params.cpp', ['hzip_core/blob/blob.cpp'], [dict(mode=3)], reach=['large'], bounds='every number from 18446744073709550000 to 2^64-1 and within 807 of the ends of the signed range'),
             job('long', 'c15_params.cpp', ['hzip_core/blob/blob.cpp'], [dict(mode=2)], reach=['long'], bounds='names and values of 254 to 300 bytes with any first and last byte')],
     outside='more and longer parameters; malformed byte arrays and numbers; the bit stream library (a model of it is used)')
prop('C16', [job('evaluate', 'c16_evaluate.cpp', ['hzip_core/blob/blob.cpp'], [dict(n=3)], thorough=[dict(n=8)], reach=['smaller', 'raw'], bounds='every blob of up to 3 (8) original and 4 (9) encoded bytes, any contents, any header of up to 2 bytes, with and without model state')],
     outside='larger blobs')
prop('C17', [job('identity', 'c17_uncompressed.cpp', ['hzip_core/blob/blob.cpp', 'hzip_codec/uncompressed/uncompressed.cpp'], [dict(n=4)], thorough=[dict(n=12)], reach=['identity', 'rejected'], bounds='every blob of up to 4 (12) bytes, any original size and id, every algorithm and model state of up to 2 bytes')],
     outside='larger blobs')
_BLOB = 'hzip_core/blob/blob.cpp'
_VICTINI = ['hzip_codec/victini/victini.cpp', 'hzip_core/models/first_order_context.cpp', _BLOB] + _RANS
_PNG = '/verif/rt/hz_png.cpp'
_SHARINGAN = [_PNG, 'hzip_codec/sharingan/sharingan.cpp', 'hzip_codec/sharingan/state_transition.cpp', 'hzip_core/preprocessor/png_bundle.cpp', 'hzip_core/preprocessor/color.cpp', 'hzip_core/models/paeth.cpp']
_CODECS = ['hzip_codec/codec_provider.cpp', 'hzip_codec/uncompressed/uncompressed.cpp'] + _VICTINI
_PRE = ['hzip_codec/sharingan/state_transition.cpp'] + _RANS[:1] + _RT
_PRECL = dict(driver='dump_sharingan.cpp', srcs=_PRE)
_PREB = 'every sample value whose leading byte is 0, 1 or the largest and whose low byte is 0, 1 or 255'
prop('C20', [job('cpu', 'c20_precode.cpp', _PRE, [dict(how=0, w=2, h=2), dict(how=0, w=2, h=2, deep=1, all=2), dict(how=0, w=3, h=3, full=1, cw=2, chh=3), dict(how=0, w=3, h=2, ch=2, deep=1, full=1, orders=3), dict(how=0, w=3, h=2, deep=1, odd=1, ch=2, full=1, rates=3), dict(how=0, w=3, h=1, full=1, all=0, any=1, orders=1, chh=1)],
                 thorough=[dict(how=0, w=3, h=2, all=6), dict(how=0, w=2, h=2, full=1, all=0, any=1, deep=1), dict(how=0, w=4, h=4, cw=3, chh=3, ch=2, deep=1, full=1, rates=3), dict(how=0, w=2, h=2, deep=1, vals=3, all=3)], defs=_CL, opts={'max-steps': 100000000}, reach=['precoded'], cl=_PRECL,
                 bounds='images of 1x1 to 3x3 (4x4) samples, 1..2 channels, depths 3, 8, 12, 16, every chunk size up to 2x3 (3x3), context orders 1..3, three learning rates; in images of up to 4 (6) samples all, otherwise one sample takes ' + _PREB),
             job('static', 'c20_precode.cpp', _PRE, [dict(how=1, w=2, h=2, cw=1, chh=1, orders=2), dict(how=1, w=3, h=3, ch=2, deep=1, full=1, cw=1, chh=1, vals=3), dict(how=1, w=2, h=2, deep=1, odd=1, ch=2, full=1, cw=1, chh=1, vals=3), dict(how=1, w=2, h=2, full=1, cw=1, chh=1, any=1, all=0), dict(how=1, w=2, h=1, full=1, cw=1, chh=1, any=1, all=0, deep=1)],
                 thorough=[dict(how=1, w=3, h=2, all=6, cw=1, chh=1), dict(how=1, w=2, h=2, deep=1, vals=3, all=3, cw=1, chh=1)], defs=_CL, opts={'max-steps': 100000000}, reach=['precoded'], cl=_PRECL, bounds='the same with an injected model and no chunks'),
             job('dispatch', 'c20_precode.cpp', _PRE, [dict(how=2, w=2, h=2, deep=1, all=0, full=1, ch=2, orders=1)], defs=_CL, opts={'max-steps': 100000000}, reach=['precoded'], cl=_PRECL, bounds='the same entry point with and without OpenCL, images of up to 2x2x2'),
             job('gpu', 'c20_precode.cpp', _PRE, [dict(how=3, w=2, h=2), dict(how=3, w=2, h=2, deep=1, all=0, full=1, local=2)],
                 thorough=[dict(how=3, w=3, h=3, ch=2, deep=1, full=1, local=3, orders=3), dict(how=3, w=4, h=4, cw=3, chh=3, ch=2, deep=1, full=1, rates=3, local=4)], defs=_CL, opts={'max-steps': 100000000}, reach=['precoded'], cl=_PRECL, bounds='the kernel, work groups of 1..3 (4), both orders of the work items')],
     outside='larger images and chunks; other sample values, learning rates and models; empty images on a GPU; the disk cache; that the encoded image can be decoded (there is no decoder in the code)')
prop('C22', [job('lookup', 'c22_registry.cpp', _CODECS + _SHARINGAN + _RT, [dict(k=2)], thorough=[dict(k=3)], defs=_CL, reach=['known', 'unknown'], bounds='every 32-bit algorithm number, any 2 (3) rounds of lookups in every order')],
     outside='concurrent lookups')
prop('C21', [job('image', 'c21_png.cpp', ['hzip_core/preprocessor/png_bundle.cpp', _PNG], [dict(mode=0), dict(mode=1), dict(mode=2, w=3, h=2), dict(mode=2, w=9, h=1)], thorough=[dict(mode=0), dict(mode=1, w=3, h=3), dict(mode=2, w=5, h=3), dict(mode=2, w=17, h=2)], reach=['rejected', 'accepted', 'delivered'],
                 bounds='every short input and signature; every header the library can deliver (colour types 0, 2, 3, 4, 6, depths 1..16, palettes of 1, 2 and 256 colours, interlaced or not), images up to 3x2 and 9x1 (5x3, 17x2, 3x3) with any samples; truncated and corrupt data')],
     outside='libpng itself (a model reports arbitrary headers and rows); write_pixels; larger images')

_VIC2 = _VICTINI + ['hzip_codec/uncompressed/uncompressed.cpp']
prop('C18', [job('codec', 'c18_victini.cpp', _VIC2,
                 [dict(n=1, hi=127), dict(minn=1, n=1, lo=128), dict(minn=2, n=2, lo=253), dict(minn=2, n=2, set=8), dict(minn=3, n=3, set=5), dict(minn=4, n=4, set=3), dict(minn=40, n=40, set=3, run=20)], thorough=[dict(n=1, hi=127), dict(minn=1, n=1, lo=128), dict(minn=2, n=2, lo=244), dict(minn=2, n=2, hi=11), dict(minn=3, n=3, set=8), dict(minn=4, n=4, set=5), dict(minn=6, n=6, set=3), dict(minn=40, n=40, set=8, run=20), dict(minn=300, n=300, set=6, run=255)], opts={'max-steps': 400000000}, reach=['raw', 'smaller'],
                 bounds='every input of up to one byte; every two-byte input over bytes 253..255 (0..11, 244..255); every input of two bytes over eight, three over five (eight), four over three (five) boundary byte values; inputs of 40 (300) bytes with three free bytes over three (six to eight) boundary values')],
     outside='longer inputs and other byte combinations: the coder, model, block sorting and move-to-front stages are decided on their own over all values (C03, C04, C12, C14)')
prop('C19', [job('trained', 'c18_victini.cpp', _VIC2,
                 [dict(mode=1, train=1, n=2, minn=2, set=2), dict(mode=1, train=2, minn=1, n=1, set=2), dict(mode=1, train=1, minn=0, n=1, set=3)], thorough=[dict(mode=1, train=2, minn=2, n=2, set=2), dict(mode=1, train=2, minn=1, n=1, set=3), dict(mode=1, train=1, minn=2, n=2, set=4), dict(mode=1, train=3, minn=1, n=1, set=2)], opts={'max-steps': 400000000}, reach=['trained', 'incremental'],
                 bounds='one or two trainings with up to two (three) bytes, then inputs of up to two bytes, each over two or three (four) boundary byte values'),
             job('arbitrary', 'c18_victini.cpp', _VIC2,
                 [dict(mode=2, set=2, b0=a, b1=b, r=r) for a, b, r in ((0, 0, 1), (0, 1, 0), (2, 0, 1), (1, 1, 0))], thorough=[dict(mode=2, set=2, b0=a, b1=b, r=r) for a, b in ((0, 0), (0, 1), (0, 2), (2, 0), (2, 2), (1, 1), (0, 3)) for r in (0, 1)], opts={'max-steps': 400000000}, reach=['arbitrary'],
                 bounds='every model with arbitrary 32-bit counts in two cells of the row the input uses and no others in that row, inputs of two bytes over two (three) boundary values')],
     outside='longer training data and inputs; counts of 2^40 and more, where the normalisation overflows 64 bits')
prop('C27', [job('history', 'c27_trie.cpp', [], [dict(k=3), dict(k=2, depth=3), dict(k=2, styles=4), dict(k=2, depth=1, names=3), dict(k=3, probe=0)], thorough=[dict(k=4), dict(k=3, depth=3), dict(k=3, styles=4), dict(k=4, depth=1, names=3), dict(k=4, probe=0)], reach=['history', 'rejected', 'erased'],
                 bounds='every history of up to 3 (4) insertions and erasures over paths of up to two or three parts built from two or three arbitrary distinct names, in four spellings, any values; every path looked up and listed afterwards'),
             job('text', 'c27_trie.cpp', [], [dict(mode=1, n=4)], thorough=[dict(mode=1, n=8)], reach=['text'], bounds='every path text of up to 4 (8) arbitrary bytes')],
     outside='longer histories, paths and names')
_ARCH = ['/verif/rt/hz_sha.cpp', 'hzip_storage/archive/archive.cpp', 'hzip_core/blob/blob.cpp']
_AO = {'max-steps': 600000000}
_AOUT = 'longer histories; more and longer names and contents; stopping without close (C42); removing by number a model state that has a name; file entries that name blobs of other files or none; several processes'
_ASTART = 'starting from an empty archive, one holding a file with a named model state, one with stored and removed files, or the same after uninstalling and reopening'
prop('C23', [job('history', 'c23_archive.cpp', _ARCH, [dict(k=3, start=s) for s in range(4)] + [dict(k=2, start=s, blobs=2, streaming=1, hows=3, each=1) for s in (0, 2)] + [dict(k=2, start=2, repeat=1, ops=6)],
                 thorough=[dict(k=4, start=s, first=f) for s in (0, 2) for f in range(5)] + [dict(k=3, start=2, blobs=2, streaming=1, hows=3, first=f) for f in range(5)], reach=['history', 'verified', 'reopened', 'removed'], opts=_AO,
                 bounds='every history of 3 (4) operations (store a file with an anonymous or named model state, remove, install, uninstall, reopen) over three nested paths and two nested model state names, arbitrary contents and original sizes; of 2 (3) operations with files of one or two blobs written at once or one by one; with repeated random ids; ' + _ASTART),
             job('threads', 'c23_archive.cpp', _ARCH, [{'mode': 2, '--max-preempt': 1}, dict(mode=2, rivals=1)], thorough=[{'mode': 2, 'split': s, '--max-preempt': 2} for s in range(7)] + [dict(mode=2, rivals=1, threads=3)], reach=['threads', 'rivals'], opts={'max-preempt': 2, 'max-steps': 600000000},
                 bounds='two threads, each with any one of seven operations on its own names, every interleaving with one (two) preemptions; two (three) threads storing or removing the same thing, two preemptions')], outside=_AOUT)
prop('C24', [job('space', 'c23_archive.cpp', _ARCH, [dict(mode=1), dict(mode=1, sizes=10, files=1), dict(mode=1, sizes=3, files=3, again=1, allsizes=1), dict(mode=1, sizes=4, mstates=1, named=1), dict(mode=1, sizes=6, files=3, again=2)],
                 thorough=[dict(mode=1, sizes=10, files=2, again=2), dict(mode=1, sizes=10, files=1, again=3), dict(mode=1, sizes=4, files=3, again=3), dict(mode=1, sizes=8, mstates=1)], reach=['reuse', 'verified'], opts=_AO,
                 bounds='one to three files of 3..10 different sizes (chosen around the free-block header size), any subset removed, with or without reopening, then one or two (three) blobs or model states of any of the sizes stored in their place; the raw file is walked afterwards'),
             job('history', 'c23_archive.cpp', _ARCH, [dict(k=2, start=s, blobs=2, hows=2, ops=6) for s in range(4)], thorough=[dict(k=3, start=s, blobs=2, hows=2, ops=6) for s in range(4)], reach=['history', 'verified'], opts=_AO, bounds='the histories of C23 with 2 (3) operations')],
     outside=_AOUT)
prop('C25', [job('deps', 'c23_archive.cpp', _ARCH, [dict(k=3, start=s, ops=6) for s in (1, 2)]+[dict(k=2, start=s, ops=6, hows=3, streaming=1, blobs=2) for s in (1, 3)],
                 thorough=[dict(k=4, start=1, ops=6, first=f) for f in range(6)], reach=['dependency', 'verified'], opts=_AO,
                 bounds='every history of 3 (4) operations including anonymous model states nothing uses, of 2 with files of one or two blobs; ' + _ASTART)], outside=_AOUT)
prop('C26', [job('rejected', 'c23_archive.cpp', _ARCH, [dict(k=2, start=s, ops=7, hows=3, each=1) for s in (0, 1, 3)],
                 thorough=[dict(k=3, start=s, ops=7, hows=3, first=f) for s in (1, 2) for f in range(7)], reach=['rejected', 'verified'], opts=_AO,
                 bounds='every history of 2 (3) operations including invalid paths, paths of directories, paths below files, unknown names and model states, with everything verified after each; ' + _ASTART)], outside=_AOUT)
_PROC = ['hzip_codec/processor/processor.cpp', 'hzip_core/utils/semaphore.cpp', 'hzip_codec/uncompressed/uncompressed.cpp'] + _ARCH
prop('C30', [job('single', 'c30_processor.cpp', _PROC, [dict(jobs=1)], thorough=[{'jobs': 1, '--max-preempt': 3}], reach=['failed', 'succeeded', 'slots'], opts={'max-preempt': 1},
                 bounds='one job of each of 14 kinds (encoding, decoding, training; succeeding, rejected for each reason, failing codec, failing callbacks), any one callback absent, 1..2 slots, every interleaving of worker and caller with one (three) preemptions'),
             job('several', 'c30_processor.cpp', _PROC, [dict(jobs=2), {'jobs': 3, 'kinds': 2, '--max-preempt': 1}], thorough=[{'jobs': 2, '--max-preempt': 3}, {'jobs': 3, 'kinds': 3, '--max-preempt': 2}], reach=['failed', 'succeeded', 'slots'], opts={'max-preempt': 2},
                 bounds='2 and 3 jobs of 5 (2) kinds on 1..2 slots, every interleaving with two (for 3 jobs one) preemptions; thorough: three and two')],
     outside='more jobs, slots and preemptions; the real codecs (a small codec with scheduling points stands in for them)')
prop('C31', [job('jobs', 'c31_jobs.cpp', _PROC, [dict(n=5), dict(n=3, mode=1, lesson=2)], thorough=[dict(n=9), dict(n=6, mode=1, lesson=3)], reach=['decoded', 'stored', 'rejected', 'trained', 'refused', 'kept', 'address'], opts={'max-preempt': 0},
                 bounds='every encode job over data of up to 5 (9) arbitrary bytes with any combination of archive, callback, model state address (trained, empty, absent, malformed, none), model state of its own and algorithm (compressing, raw, unknown), decoded from the callback, from the archive and after reopening it; every training job over six addresses, algorithms, with and without dependent data'),
             job('victini', 'c31_jobs.cpp', _PROC[:2] + _ARCH + _CODECS + _SHARINGAN + _RT, [dict(n=40, minn=40, lesson=30, kinds=2, addrs=2)], thorough=[dict(n=40, minn=40, lesson=30, kinds=3, addrs=3), dict(n=3, lesson=2, kinds=2, mode=1, addrs=3)], defs=_CL + ['-DREAL'], reach=['decoded', 'stored'], opts={'max-preempt': 0, 'max-steps': 4000000000},
                 bounds='the same with the real codecs, 40 bytes of compressible and incompressible contents (three kinds in the thorough tier)')],
     outside='larger data with all byte values through the real codecs (C18, C19 decide the codec itself); the image codec, whose decompression is not implemented; model states not made by training')
_PROV = ['hzip_network/api/providers/archive_provider.cpp'] + _ARCH
prop('C36', [job('sequence', 'c36_provider.cpp', _PROV, [dict(k=2), dict(k=3, existing=1)], thorough=[dict(k=4), dict(k=3, existing=1)], reach=['failed', 'opened', 'closed'], opts={'max-preempt': 2}, bounds='every sequence of 2..3 (4) requests over nine paths: three archives in five spellings, a directory, a missing directory, an archive of another version, an empty path'),
             job('threads', 'c36_provider.cpp', _PROV, [dict(threads=1, k=2, paths=5, remap=1), {'threads': 1, 'k': 3, 'paths': 3, 'remap': 1, '--max-preempt': 1}], thorough=[dict(threads=1, k=3, paths=5, remap=1)], reach=['threads', 'closed'], opts={'max-preempt': 2}, bounds='two threads (two preemptions) and three threads (one preemption; thorough: two) requesting any of five (three) paths')],
     outside='symbolic links; requests while the provider is closed; more threads; other processes')
_API = ['hzip_network/api/api.cpp', 'hzip_network/api/handlers/query.cpp', 'hzip_network/api/handlers/streamer.cpp', 'hzip_network/api/handlers/socket_class.cpp', 'hzip_network/api/providers/archive_provider.cpp'] + _PROC
prop('C33', [job('session', 'c33_session.cpp', _API, [dict(k=2), dict(k=1, pw=1, fail=16), dict(k=1, pw=2, long=1)], thorough=[dict(k=4), dict(k=2, pw=1, fail=24), dict(k=1, pw=5, long=1)], reach=['admitted', 'refused', 'closed', 'invalid'], opts={'max-preempt': 1}, bounds='one session: every reply of the client, every sequence of 2 (4) commands with any command byte (the bytes of STREAM and QUERY followed by any rejected or the memory-usage subcommand), every password of up to 2 (5) characters plus one of 9; with a client of one (two) commands, every one of the first 16 (24) socket transfers failing in each of three ways (error, end of stream, short)'),
             job('tokens', 'c33_session.cpp', _API, [dict(tokens=1)], reach=['tokens'], opts={'max-preempt': 1}, bounds='four sessions of one process, two in the same thread and two in threads of their own; random devices deliver any pairwise different numbers, a generator is a function of its seed and position'),
             job('server', 'c33_session.cpp', _API, [dict(api=1, conns=3)], thorough=[{'api': 1, 'conns': 4}, {'api': 1, 'conns': 3, '--max-preempt': 2}], defs=['-DSERVER'], reach=['served', 'parallel'], opts={'max-preempt': 1}, bounds='3 (4) connections to a server of 1 or 2 sessions, with and without timeouts which can fail to be set; one preemption (thorough also two)')],
     outside='what the sessions do for accepted STREAM and QUERY subcommands (C34, C35); the strength of the random numbers and of the exclusive-or cipher; failing accept(); Api::shutdown',
     assumptions=['sockets are modelled: a transfer delivers everything or fails, and after a failure the connection stays broken'])
_QUERY = ['hzip_network/api/handlers/query.cpp', 'hzip_network/api/handlers/socket_class.cpp', 'hzip_network/api/providers/archive_provider.cpp'] + _ARCH
prop('C34', [job('sequence', 'c34_query.cpp', _QUERY, [dict(k=3, targets=10), dict(k=5, base=2, targets=9, archs=3), dict(k=4, base=2, any=1), dict(k=1, any=3), dict(k=1, any=2), dict(k=4, base=2, words=9, targets=0, any=3, archs=1), dict(k=3, cut=1, targets=2, archs=1), dict(k=4, base=2, cut=1, targets=4, archs=2)], thorough=[dict(k=3), dict(k=4, targets=6, archs=2), dict(k=5, base=2), dict(k=2, any=2), dict(k=6, base=3, targets=6, archs=1), dict(k=3, cut=1, targets=4)], reach=['done', 'end', 'unknown', 'missing', 'no-archive', 'bad-target', 'existence', 'listing', 'deleted', 'nothing-to-delete', 'in-use', 'nothing-to-list'], opts={'max-steps': 600000000}, bounds='every sequence of up to 3 (4) messages and of 2 (3) messages after an archive was named and piggy-back allowed, over all commands and any unknown byte, four archive paths (one spelled differently, one that cannot be opened, one that does not exist yet) and up to 14 targets (files, directories, model states, absent, malformed); every target text of up to 2 characters, and "/d" followed by up to 2 (any bytes); the stream ending after each of its bytes (short of the last 24); on an archive with two files and two model states, one in use')],
     outside='longer sequences and texts; larger archives; several clients at once (C25); the number the memory query answers; failing transfers (C32, C33)',
     assumptions=['a text ends at its first null byte'])
_STREAM = ['hzip_network/api/handlers/streamer.cpp', 'hzip_network/api/handlers/socket_class.cpp', 'hzip_network/api/providers/archive_provider.cpp'] + _PROC
_SO = {'max-steps': 600000000, 'max-preempt': 0}
prop('C35', [job('encode', 'c35_stream.cpp', _STREAM, [dict(k=2, archs=2, bytes=2), dict(k=4, base=3, archs=2), dict(k=3, base=2, last=0, archs=2, bytes=5), dict(k=3, base=2, last=6, archs=2, healthy=0), dict(k=4, base=4, last=0, bytes=6, healthy=0, reopen=1), dict(k=3, base=1, last=0, cut=1, archs=2, paths=2, addrs=2, bytes=3)],
                 thorough=[dict(k=3, archs=2, bytes=3), dict(k=4, base=2, last=0, archs=2, bytes=4), dict(k=4, base=2, last=6, archs=2, healthy=0), dict(k=5, base=4, last=0, bytes=9, healthy=0, reopen=1), {'k': 3, 'base': 2, 'last': 0, 'archs': 2, 'bytes': 3, '--max-preempt': 1}, dict(k=3, base=1, last=0, cut=1, archs=3, bytes=3)],
                 reach=['end', 'stored', 'piggyback', 'blob', 'decoded', 'trained', 'untrained', 'failed', 'reopened', 'missing', 'nowhere', 'occupied', 'no-algorithm', 'no-archive', 'bad-path', 'unknown'], opts=_SO,
                 bounds='encode and train requests: every sequence of 2 (3) messages, of 1..2 (2) more after algorithm, archive (and piggy-back) were given, and of those followed by data; up to 5 (8) arbitrary bytes in parts of 2, over six destinations, six model state addresses, any 64-bit algorithm number, any unknown command; the stream ending at each of its last 12 bytes; what was stored and what was sent back is decoded through further requests, also after reopening the archive'),
             job('decode', 'c35_stream.cpp', _STREAM, [dict(mode=1, k=2, archs=2, addrs=5, paths=5), dict(mode=1, k=4, base=3, archs=2), dict(mode=1, k=5, base=3, last=7, archs=2, paths=2, addrs=3), dict(mode=1, k=4, base=2, last=0, archs=2), dict(mode=1, k=3, base=2, last=7, archs=2, cut=1, addrs=2, paths=1)],
                 thorough=[dict(mode=1, k=3, archs=2, addrs=3, paths=3), dict(mode=1, k=5, base=3, archs=2), dict(mode=1, k=5, base=3, last=7, archs=3), dict(mode=1, k=4, base=2, last=7, archs=2, cut=1, addrs=2, paths=1)],
                 reach=['end', 'decoded', 'blob', 'foreign', 'undecodable', 'absent', 'missing', 'no-algorithm', 'no-archive', 'bad-path', 'unknown'], opts=_SO,
                 bounds='decode requests: every sequence of 2 (3) messages and of 1..2 more after piggy-back, archive and algorithm, followed by a file or a blob; blobs the server made and arbitrary ones (header of 0 or 2, data of 0..2, announced size 0..3 bytes) with model states of 0..1 bytes or the right one; the stream ending early'),
             job('model', 'c35_stream.cpp', _STREAM, [dict(mode=2, k=2), dict(mode=2, k=3, base=1, archs=2), dict(mode=2, k=3, base=1, archs=2, last=2, bytes=3), dict(mode=3, k=3, archs=2), dict(mode=3, k=3, base=1, last=2), dict(mode=2, k=2, base=2, last=2, cut=1), dict(mode=4)],
                 thorough=[dict(mode=2, k=3), dict(mode=2, k=4, base=1, archs=2, last=2, bytes=3), dict(mode=3, k=4, archs=2), dict(mode=3, k=4, base=1, last=2), dict(mode=2, k=2, base=2, last=2, cut=1, bytes=9), dict(mode=4)],
                 reach=['end', 'written', 'read', 'absent', 'missing', 'occupied', 'no-algorithm', 'no-archive', 'unknown'], opts=_SO,
                 bounds='requests to write and read model states: every sequence of 2..3 (3..4) messages, up to 3 (8) arbitrary bytes, any 64-bit algorithm number; any unknown request'),
             job('fault', 'c35_stream.cpp', _STREAM, [dict(fail=100, k=4, base=4, last=0, bytes=4, size=1), dict(fail=60, mode=1, k=4, base=4, last=0, size=1), dict(mode=2, fail=30, k=2, base=2, last=2, size=1)], reach=['fault', 'no-fault', 'stored-before'], opts=_SO,
                 bounds='a request storing and returning up to 3 bytes, one decoding a file, one writing a model state, with each of its socket transfers failing in three ways')],
     outside='the real codecs (C17 - C19, C31), a small codec with parts of 2 bytes stands in; larger data, longer sequences; model states that the codec did not make, apart from empty ones; blobs not made by the server with the real codecs; unreachable blobs stay in the archive when a stream breaks off or only a part fails, and when piggy-back data is encoded with an archive but without a destination; several clients at once',
     assumptions=['a text ends at its first null byte'])
