"""C13: every record of a multi-block graph file is found by its ID."""
from __future__ import annotations

import io
import os
import uuid
import zipfile

from core import Facet, Violation, expect, expect_eq, must_raise, scratch_dir
from hypothesis import strategies as st

PROPERTY = "C13"
RULE = ("sets of 128-bit record IDs (random, adjacent runs, extremes of the range, clusters) with byte payloads, "
        "integer width 1..8, page sizes from below one row to beyond the file, 0..3 blocks per ID with holes, and a "
        "generated sequence of find/read-all operations including absent IDs next to present ones. Non-trivial: at "
        "least two pages of index and at least one lookup of a present and one of an absent ID.")
ASSUMPTIONS = ["IDs in one file are unique; integers fit in the chosen width (the writers choose it that way)"]

MAXU = 2**128 - 1


@st.composite
def id_sets(draw, max_size=24):
    ids = set()
    n_groups = draw(st.integers(0, 5))
    for _ in range(n_groups):
        kind = draw(st.sampled_from(["random", "run", "low", "high", "cluster"]))
        if kind == "random":
            ids.update(draw(st.lists(st.integers(0, MAXU), max_size=5)))
        elif kind == "run":
            start = draw(st.integers(0, MAXU - 16))
            ids.update(range(start, start + draw(st.integers(1, 8))))
        elif kind == "low":
            ids.update(range(draw(st.integers(0, 2)), draw(st.integers(1, 6))))
        elif kind == "high":
            ids.update(range(MAXU - draw(st.integers(0, 5)), MAXU + 1))
        else:
            base = draw(st.integers(0, MAXU - 64))
            ids.update(base + d for d in draw(st.lists(st.integers(0, 40), max_size=6)))
    return sorted(ids)[:max_size]


@st.composite
def cases(draw):
    ids = draw(id_sets())
    n_blocks = draw(st.integers(0 if not ids else 1, 3))
    int_size = draw(st.integers(2, 8))
    blocks = []
    for _ in range(n_blocks):
        block = {}
        for i in ids:
            if draw(st.booleans()) or n_blocks == 1:
                block[str(i)] = draw(st.binary(max_size=12)).hex() * draw(st.sampled_from([1, 1, 1, 7]))
        blocks.append(block)
    present = sorted({int(i) for b in blocks for i in b})
    near = sorted({j for i in present for j in (i - 1, i + 1) if 0 <= j <= MAXU})
    pool = present + near
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["find", "find", "find", "absent", "all", "reopen"]))
        if k == "find" and pool:
            ops.append(["find", str(draw(st.sampled_from(pool)))])
        elif k == "absent":
            ops.append(["find", str(draw(st.integers(0, MAXU)))])
        elif k in ("all", "reopen"):
            ops.append([k])
    order = draw(st.permutations(range(len(ids)))) if ids else []
    return {"blocks": blocks, "int_size": int_size, "page_size": draw(st.sampled_from([1, 30, 60, 100, 150, 200, 400, 10**6])),
            "ops": ops, "order": list(order), "tempfile": draw(st.booleans()), "final_all": draw(st.booleans())}


def check(case):
    from lsst.pipe.base.quantum_graph._multiblock import (
        AddressReader,
        AddressWriter,
        MultiblockReader,
        MultiblockWriter,
    )

    isz = case["int_size"]
    blocks = [{int(k): bytes.fromhex(v) for k, v in b.items()} for b in case["blocks"]]
    present = sorted({i for b in blocks for i in b})
    n_found = n_absent = 0
    with scratch_dir() as d:
        path = os.path.join(d, "x.zip")
        aw = AddressWriter()
        writes = []
        with zipfile.ZipFile(path, "w") as zf:
            for n, b in enumerate(blocks):
                with MultiblockWriter.open_in_zip(zf, f"b{n}", isz, use_tempfile=case["tempfile"]) as mw:
                    keys = sorted(b)
                    keys.sort(key=lambda k: case["order"].index(present.index(k) % max(1, len(case["order"])))
                              if case["order"] else 0)
                    writes.append([b[k] for k in keys])
                    for k in keys:
                        mw.write_bytes(uuid.UUID(int=k), b[k])
                aw.addresses.append(mw.addresses)
            aw.write_to_zip(zf, "idx", isz)
        with zipfile.ZipFile(path) as zf:
            for n, b in enumerate(blocks):
                got = list(MultiblockReader.read_all_bytes_in_zip(zf, f"b{n}", int_size=isz, page_size=case["page_size"]))
                expect_eq(got, writes[n], f"sequential read of block file {n}")
            readers = [MultiblockReader.open_in_zip(zf, f"b{n}", int_size=isz) for n in range(len(blocks))]
            opened = [r.__enter__() for r in readers]

            def verify(row, key):
                expect_eq(row.key.int, key, "row key")
                expect_eq(len(row.addresses), len(blocks), "addresses per row")
                for n, b in enumerate(blocks):
                    expect_eq(opened[n].read_bytes(row.addresses[n]), b.get(key), f"payload of {key} in block {n}")

            def session():
                return AddressReader.open_in_zip(zf, "idx", page_size=case["page_size"], n_addresses=len(blocks),
                                                 int_size=isz)

            def lookup(reader, key):
                nonlocal n_found, n_absent
                if key in present:
                    try:
                        row = reader.find(uuid.UUID(int=key))
                    except LookupError as exc:
                        raise Violation(f"stored ID {key} not found: {exc}")
                    verify(row, key)
                    expect_eq(row.index, present.index(key), "row index")
                    n_found += 1
                else:
                    with must_raise(LookupError, msg=f"absent ID {key}"):
                        reader.find(uuid.UUID(int=key))
                    n_absent += 1

            def read_all(reader):
                rows = reader.read_all()
                expect_eq({k.int for k in rows}, set(present), "IDs from a full read")
                for k, row in rows.items():
                    verify(row, k.int)

            pages = 0
            cm = session()
            reader = cm.__enter__()
            pages = len(reader.pages)
            for op in case["ops"]:
                if op[0] == "find":
                    lookup(reader, int(op[1]))
                elif op[0] == "all":
                    read_all(reader)
                else:
                    cm.__exit__(None, None, None)
                    cm = session()
                    reader = cm.__enter__()
            if case["final_all"]:
                read_all(reader)
            cm.__exit__(None, None, None)
            # every ID from a cold start: the first lookup decides which pages the search has seen
            for key in present[:10]:
                with session() as r:
                    lookup(r, key)
            with session() as r:
                for key in reversed(present):
                    lookup(r, key)
            for r in readers:
                r.__exit__(None, None, None)
    return {"nontrivial": pages >= 2 and n_found > 0 and n_absent > 0,
            "labels": [f"pages={'0' if not pages else '1' if pages == 1 else '2-4' if pages < 5 else '5+'}",
                       "adjacent" if any(b - a == 1 for a, b in zip(present, present[1:])) else "sparse"]}


@st.composite
def model_cases(draw):
    """Compressed pydantic models through the same storage, with truncation of the index."""
    ids = draw(id_sets(max_size=8))
    return {"ids": [str(i) for i in ids], "int_size": draw(st.integers(2, 8)),
            "texts": [draw(st.text(max_size=30)) for _ in ids], "cut": draw(st.integers(0, 400)),
            "wrong_int": draw(st.integers(1, 8)), "wrong_n": draw(st.integers(0, 3)), "corrupt": draw(st.integers(0, 200))}


def check_models(case):
    import zlib

    import pydantic
    from lsst.pipe.base.quantum_graph import _multiblock as mb

    class M(pydantic.BaseModel):
        s: str

    class Z:
        def compress(self, b):
            return zlib.compress(b)

        def decompress(self, b):
            return zlib.decompress(b)

    isz = case["int_size"]
    ids = [uuid.UUID(int=int(i)) for i in case["ids"]]
    stream = io.BytesIO()
    mw = mb.MultiblockWriter(stream, isz)
    for i, t in zip(ids, case["texts"]):
        mw.write_model(i, M(s=t), Z())
    mr = mb.MultiblockReader(stream, isz)
    for i, t in zip(ids, case["texts"]):
        expect_eq(mr.read_model(mw.addresses[i], M, Z()).s, t, "model payload")
    expect_eq(mr.read_model(mb.Address(), M, Z()), None, "absent block")
    aw = mb.AddressWriter([mw.addresses])
    out = io.BytesIO()
    aw.write(out, isz)
    raw = out.getvalue()
    # header/option mismatch must be refused
    if case["wrong_int"] != isz:
        with must_raise(mb.InvalidQuantumGraphFileError, msg="integer width mismatch"):
            mb.AddressReader.from_stream(io.BytesIO(raw + b"\0" * 64), page_size=100, n_addresses=1, int_size=case["wrong_int"])
    if case["wrong_n"] != 1:
        with must_raise(mb.InvalidQuantumGraphFileError, msg="address count mismatch"):
            mb.AddressReader.from_stream(io.BytesIO(raw), page_size=100, n_addresses=case["wrong_n"], int_size=isz)
    header = mb.AddressReader.compute_header_size(isz)
    if case["cut"] < header:
        with must_raise(mb.InvalidQuantumGraphFileError, msg="truncated header"):
            mb.AddressReader.from_stream(io.BytesIO(raw[: case["cut"]]), page_size=100, n_addresses=1, int_size=isz)
    # a block whose recorded internal size disagrees with its address is refused
    if ids:
        a = mw.addresses[ids[0]]
        if a.size > isz:
            with must_raise(mb.InvalidQuantumGraphFileError, msg="inconsistent block size"):
                mr.read_bytes(mb.Address(offset=a.offset, size=a.size - 1))
    return {"nontrivial": len(ids) > 1}


FACETS = [
    Facet("lookup", cases, check, quick=6000),
    Facet("models", model_cases, check_models, quick=2000, shards=4),
]
