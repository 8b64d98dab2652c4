// C40: error classes are standard exceptions with a lasting message; assertion helper.
#include <exception>
#include <string>
#include <hzip_core/errors/utils.h>
#include <hzip_core/errors/transform.h>
#include <hzip_core/errors/opencl.h>
#include <hzip_codec/errors/codec.h>
#include <hzip_codec/errors/processor.h>
#include <hzip_network/errors/api.h>
#include <hzip_storage/errors/archive.h>
#include <hzip_core/utils/utils.h>
static char txt[16]; static uint64_t len;
template<typename F> static void caught(F f, bool reason) {
    int r = 2;
    std::exception_ptr keep;
    try { f(); r = 0; }
    catch (const std::exception &e) {
        r = 1;
        const char *w = e.what();
        HZ_CHECK(w != nullptr && w[0] != 0, "the message is not empty");
        size_t n = 0; while (w[n]) n++;
        if (reason) {
            int found = 0;
            for (size_t i = 0; i + len <= n; i++) { int eq = 1; for (size_t j = 0; j < len; j++) eq &= w[i + j] == txt[j]; found |= eq; }
            HZ_CHECK(found, "the message contains the reason it was created with");
        }
    } catch (...) { r = 2; }
    HZ_CHECK(r == 1, "the error is caught as a std::exception");
}
template<typename E> static void viaString(bool reason) {
    caught([] { std::string s(txt, len); throw E(s); }, reason);
    // copies live on after the original is gone
    caught([] { E *a; { std::string s(txt, len); a = new E(s); } E b(*a); delete a; throw b; }, reason);
}
extern "C" void hz_main() {
    len = hz_pick((uint8_t) (hzs_param("n", 2) + 1), "length");
    for (uint64_t i = 0; i < len; i++) { txt[i] = hz_sym<char>("c"); hzs_assume(txt[i] != 0); }
    switch (hz_pick(18, "class")) {
        case 0: viaString<UtilErrors::ValidationError>(false); break;
        case 1: viaString<UtilErrors::InternalError>(false); break;
        case 2: viaString<TransformErrors::InvalidInputError>(false); break;
        case 3: viaString<TransformErrors::InvalidOperationError>(false); break;
        case 4: viaString<OpenCLErrors::InvalidOperationException>(true); break;
        case 5: viaString<OpenCLErrors::ProgramException>(true); break;
        case 6: viaString<CodecErrors::InvalidOperationException>(true); break;
        case 7: viaString<CodecErrors::ResourceResolutionException>(true); break;
        case 8: viaString<ProcessorErrors::InvalidOperationError>(true); break;
        case 9: if (!len) return; viaString<ProcessorErrors::GenericError>(true); break;
        case 10: viaString<ApiErrors::InitializationError>(false); break;
        case 11: if (!len) return; viaString<ApiErrors::InvalidOperationError>(true); break;
        case 12: if (!len) return; viaString<ApiErrors::ConnectionError>(true); break;
        case 13: { uint64_t id = hz_sym<uint64_t>("id"); caught([=] { throw ArchiveErrors::BlobNotFoundException(id); }, false);
                   try { throw ArchiveErrors::BlobNotFoundException(id); } catch (ArchiveErrors::BlobNotFoundException &e) { HZ_CHECK(e.id == id, "the error names the missing blob"); } break; }
        case 14: { uint64_t id = hz_sym<uint64_t>("id"); caught([=] { throw ArchiveErrors::MstateNotFoundException(id); }, false);
                   try { throw ArchiveErrors::MstateNotFoundException(id); } catch (ArchiveErrors::MstateNotFoundException &e) { HZ_CHECK(e.id == id, "the error names the missing model state"); } break; }
        case 15: viaString<ArchiveErrors::FileNotFoundException>(false); break;
        case 16: viaString<ArchiveErrors::InvalidOperationException>(true); viaString<ArchiveErrors::TargetNotFoundException>(true); break;
        default: {
            uint8_t b = hz_sym<uint8_t>("condition");
            bool cond = b & 0x10;
            int r;
            HZ_TRY(r, HZ_ASSERT(cond, std::string(txt, len)));
            HZ_CHECK(r == (cond ? 0 : 1), "an assertion raises a standard exception exactly when its condition is false");
            hzs_reach("assert");
        }
    }
    hzs_reach("error");
}
