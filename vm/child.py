"""Runs one check body in-process and streams its state to a result file."""
import faulthandler
import importlib
import os
import sys
import warnings

faulthandler.enable()
warnings.filterwarnings("ignore")
from vm import boot  # noqa: E402
from vm.core import Ctx  # noqa: E402


def main():
    prop, tier, seed, out = sys.argv[1:5]
    shard, shards = int(sys.argv[5]), int(sys.argv[6])
    only = sys.argv[7] if len(sys.argv) > 7 else None
    boot.install_paths(os.environ["VM_EXTDIR"])
    mod = importlib.import_module(f"vm.checks.{prop.lower()}")
    ctx = Ctx(prop, tier, int(seed), only=only, outfile=out, shard=shard, shards=shards)
    ctx.flush()
    mod.run(ctx)
    ctx.flush()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
