"""Everything the checks link, in one place (setup warms the cache with it)."""
import os
from vbuild import DECODER_LIBS, REPO
T = {
    "atools": dict(src=["utils/atools.cc"], libs=["utils"]),
    "decoder": dict(src=["decoder.cc"], libs=DECODER_LIBS),
    "sparse": dict(src=["sparse.cc"], libs=["utils"], flags=["-fsanitize=address", "-fno-omit-frame-pointer"]),
    "intern": dict(src=["intern.cc"], libs=["utils"], flags=["-fsanitize=address", "-fno-omit-frame-pointer"]),
    "extractor": dict(src=["extractor.cc"], libs=["extractor", "utils"], flags=["-fopenmp", "-fsanitize=address", "-fno-omit-frame-pointer"], ldflags=["-fopenmp"]),
    **{n: dict(src=["extractor/%s.cc" % n, "omp.cc"], libs=["extractor", "utils"], flags=["-fopenmp", "-fsanitize=thread", "-fno-omit-frame-pointer"], ldflags=["-fopenmp"])
       for n in ("run_extractor", "sacompile", "extract")},
    "sentserver": dict(src=["sentserver.cc", "ss_server.cc"]),
    "sentserver_bin": dict(src=["training/utils/sentserver.cc"]),
    "sentclient_bin": dict(src=["training/utils/sentclient.cc"]),
    "mteval": dict(src=["mteval.cc"], libs=["mteval", "utils"]),
    "fast_score": dict(src=["mteval/fast_score.cc"], libs=["mteval", "utils"]),
    "mert": dict(src=["mert.cc"], libs=["dpmert", "training_utils"] + DECODER_LIBS),
    "mr_map": dict(src=["training/dpmert/mr_dpmert_map.cc"], libs=["dpmert", "training_utils"] + DECODER_LIBS),
    "mr_reduce": dict(src=["training/dpmert/mr_dpmert_reduce.cc"], libs=["dpmert", "training_utils"] + DECODER_LIBS),
    "mr_gen": dict(src=["training/dpmert/mr_dpmert_generate_mapper_input.cc"], libs=["dpmert", "training_utils"] + DECODER_LIBS),
    "klm": dict(src=["klm.cc"], libs=["klm", "klm_util", "klm_double"]),
    "lm_query": dict(src=["klm/lm/query_main.cc"], libs=["klm", "klm_util", "klm_double"]),
    "build_binary": dict(src=["klm/lm/build_binary_main.cc"], libs=["klm", "klm_util", "klm_double"]),
    "lmplz": dict(src=["klm/lm/builder/lmplz_main.cc"], libs=["lmplz", "klm", "klm_stream", "klm_util", "klm_double"]),
    "pipes": dict(src=["pipes.cc", "detsched.cc"], libs=["klm_stream", "klm_util", "klm_double"]),
    "pool": dict(src=["pool.cc"], libs=["training_utils"] + DECODER_LIBS),
    "mr_pro_map": dict(src=["training/pro/mr_pro_map.cc"], libs=["training_utils"] + DECODER_LIBS),
    "rampion": dict(src=["training/rampion/rampion_cccp.cc"], libs=["training_utils"] + DECODER_LIBS),
    "minrisk": dict(src=["training/minrisk/minrisk_optimize.cc"], libs=["lbfgs", "training_utils"] + DECODER_LIBS, flags=["-I", os.path.join(REPO, "training")]),
    "fast_align": dict(src=["word-aligner/fast_align.cc", "word-aligner/ttables.cc"], libs=["utils"]),
    "mbr_kbest": dict(src=["mteval/mbr_kbest.cc"], libs=["mteval", "utils"]),
    "forest": dict(src=["forest.cc"], libs=DECODER_LIBS),
}
def all_targets():
    return dict(T)
def get(*names):
    import vbuild
    return vbuild.build({n: T[n] for n in names})
