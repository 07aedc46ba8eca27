// MP4 writing (P01)
#include "stdafx.h"
#include "mp4gen.h"

PBT_PROP(mp4_mux, 3, 0) {
    QuietStdout q; std::string path = scratch("o.mp4"); Gone gone{ path }; std::ostringstream log; Plan p = gen_plan(s); p.async = s.chance(10); if (p.async) s.label("asynchronous");
    try {
        if (p.async) { mg::uv::loopthread lt; lt.Create(); lt->set_wait_time(1); lt->start(); { MP4Mux mux(lt); write_mux(s, p, mux, path, log); } lt->end(); } else { MP4Mux mux; write_mux(s, p, mux, path, log); }
        Bytes file = get_file(path); if (s.replaying() && getenv("VERIF_DUMP")) put_file(getenv("VERIF_DUMP"), file); PBT_CHECK(access((path + ".body.tmp").c_str(), F_OK) != 0, "the temporary file is left"); check_movie(s, p, file, log);
    } catch (ref::Bad& b) { PBT_CHECK(false, "not a valid file: " << b.what << " | " << log.str()); }
    catch (mgexceptionbase& e) { PBT_CHECK(false, "writing failed: " << e.what() << " | " << log.str()); }
    size_t n = 0; for (auto& t : p.st) n += t.in.size(); if (n > 3) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 300));
}
