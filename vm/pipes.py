"""A stateful batch pipeline used to watch pipeline state across resume and rollback."""
import hashlib

import numpy as np


def register():
    from dataset.core import FieldSpec, PreparedPipelineResult
    from dataset.pipeline import PIPELINES, BasePipeline
    if "vm_counter" in PIPELINES:
        return

    @PIPELINES.register("vm_counter")
    class VmCounter(BasePipeline):
        pipeline_id = "vm_counter"
        schema_version = 1
        input_fields = (
            FieldSpec("board_input", True, "per_sample", (-2, -1), 0, "stack", ("b", "i", "u", "f"), "plain"),
        )
        output_fields = (
            FieldSpec("vm_counter", True, "per_sample", None, None, "stack", ("i",), "plain"),
        )

        def __init__(self, start=0):
            super().__init__()
            self.start = start

        def signature_state(self):
            return {"start": self.start}

        def initial_state(self):
            return {"rows": self.start, "chain": b"", "w": 0.5}

        def process(self, data):
            return data

        def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
            n = len(sample_keys)
            out = dict(data)
            out["vm_counter"] = np.arange(current_state["rows"], current_state["rows"] + n, dtype=np.int64).reshape(n, 1)
            chain = hashlib.sha256(current_state["chain"] + repr(rng_keys).encode()).digest()[:8]
            return PreparedPipelineResult(out, {"rows": current_state["rows"] + n, "chain": chain,
                                                "w": current_state["w"] / 2 + 0.25})

        def process_batch(self, data, *, sample_keys=None, rng_keys=None):
            raise AssertionError("stateful pipeline must be driven through prepare_batch")


BAD_MODES = ("overwrite", "undeclared", "remove", "mutate", "mutate-board", "mutate-target", "state", "signature",
             "not-prepared", "not-dict", "short", "dtype", "missing")


def register_bad():
    """A pipeline that behaves until a chosen row count, then breaks its contract in one way."""
    from dataset.core import FieldSpec, PreparedPipelineResult
    from dataset.pipeline import PIPELINES, BasePipeline
    if "vm_bad" in PIPELINES:
        return

    @PIPELINES.register("vm_bad")
    class VmBad(BasePipeline):
        pipeline_id = "vm_bad"
        schema_version = 1
        input_fields = (
            FieldSpec("board_input", True, "per_sample", (-2, -1), 0, "stack", ("b", "i", "u", "f"), "plain"),
        )
        output_fields = (
            FieldSpec("vm_bad", True, "per_sample", None, None, "stack", ("i",), "plain"),
        )

        def __init__(self, mode="none", after=0):
            super().__init__()
            self.mode, self.after, self.sig = mode, after, 0

        def signature_state(self):
            return {"sig": self.sig, "mode": self.mode, "after": self.after}

        def initial_state(self):
            return {"calls": 0}

        def process(self, data):
            return data

        def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
            n, m = len(sample_keys), self.mode
            out = dict(data)
            out["vm_bad"] = np.zeros((n, 1), np.int64)
            nxt = {"calls": current_state["calls"] + 1}
            if current_state["calls"] < self.after or m == "none":
                return PreparedPipelineResult(out, nxt)
            if m == "overwrite":
                data["vm_bad"] = out["vm_bad"]      # plants its own output in the incoming batch
                out = data
                out["board_input"] = np.array(data["board_input"]) ^ 1
            elif m == "undeclared":
                out["vm_extra"] = out["vm_bad"]
            elif m == "remove":
                del out["value_target"]
            elif m == "mutate":
                out["value_target"] = np.array(out["value_target"]) + 1
            elif m == "mutate-board":
                out["board_input"] = np.array(out["board_input"])[:, ::-1]
            elif m == "mutate-target":
                a = np.array(out["policy_target"])
                a.reshape(-1)[0] += 1
                out["policy_target"] = a
            elif m == "state":
                current_state["calls"] += 7
            elif m == "signature":
                self.sig += 1
            elif m == "not-prepared":
                return out
            elif m == "not-dict":
                return PreparedPipelineResult(list(out.items()), nxt)
            elif m == "short":
                out["vm_bad"] = np.zeros((n + 1, 1), np.int64)
            elif m == "dtype":
                out["vm_bad"] = np.zeros((n, 1), np.float32)
            elif m == "missing":
                del out["vm_bad"]
            return PreparedPipelineResult(out, nxt)

        def process_batch(self, data, *, sample_keys=None, rng_keys=None):
            raise AssertionError("stateful pipeline must be driven through prepare_batch")
