// libFuzzer entry: the bytes are the choices of a case of one property.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <memory>

using namespace vf;

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static const Property* p = find_property(getenv("VF_PROP") ? getenv("VF_PROP") : "");
    static std::unique_ptr<Record> rec = std::make_unique<Record>();
    static const char* scratch = getenv("VF_SCRATCH");
    if (!p) {
        fprintf(stderr, "VF_PROP is not a property\n");
        exit(3);
    }
    Ctx c(data, size, rec.get());
    if (scratch) c.scratch = scratch;
    run_case(*p, c, rec.get());
    if (rec->status == 2 || rec->status == 3) {
        fprintf(stderr, "PROPERTY FAILED: %s\n", rec->msg);
        abort();
    }
    return 0;
}
