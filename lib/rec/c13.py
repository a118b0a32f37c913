"""c13: histories of calls on a relaxation."""
import common as cm
import prog

cm.main(lambda rec, rng, tier, shard, n: prog.run(rec, rng, tier, shard, n, "both"))
