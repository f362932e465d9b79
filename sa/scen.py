"""Scenario table: which public-API sequences are analysed for each attributor."""
from __future__ import annotations

from .drive import ALG, OPAQUE_FUNCS, OPAQUE_MODS, FULL, IF, LAYER, TEST, TRAIN, attributor
from .terms import NONE, sym

IFS = ["IFAttributorExplicit", "IFAttributorCG", "IFAttributorArnoldi", "IFAttributorLiSSA",
       "IFAttributorDataInf", "IFAttributorEKFAC"]
TRACIN = ALG + "tracin.TracInAttributor"
TRAK = ALG + "trak.TRAKAttributor"
RPS = ALG + "rps.RPSAttributor"
KNN = ALG + "data_shapley.KNNShapleyAttributor"
DVEMB = ALG + "dvemb.DVEmbAttributor"
BLOCK = ALG + "block_projected_if.block_projected_if.BlockProjectedIFAttributor"
LOGRA = ALG + "logra.LoGraAttributor"
FACT = ALG + "factgrass.FactGraSSAttributor"


RPS_OPAQUE = OPAQUE_FUNCS | {"dattri.model_util.hook.get_final_layer_io"}


class Scen:
    def __init__(self, name, qual, calls, init=None, roles=None, **cfg):
        self.name, self.qual, self.calls, self.init, self.cfg = name, qual, calls, init or {}, cfg
        # which symbolic loader plays the train role / test role in the checked call
        self.roles = roles or {}
        self.run = None

    def build(self, repo, extra_init=None, **cfg):
        init = dict(self.init)
        init.update(extra_init or {})
        kw = dict(self.cfg)
        kw.update(cfg)
        r = attributor(repo, self.qual, init=init, **kw)
        r.label = self.name
        for key, method, params in self.calls:
            r.call(method, key=key, **params)
        return r


FULL2 = dict(full_train_dataloader=FULL)
TT = dict(train_dataloader=TRAIN, test_dataloader=TEST)
T1 = dict(train_dataloader=TRAIN)


def table():
    out = []
    out.append(Scen("TracIn.attribute", TRACIN, [("main", "attribute", TT)], roles=dict(train=TRAIN, test=TEST)))
    out.append(Scen("TracIn.self_attribute", TRACIN, [("main", "self_attribute", T1)], roles=dict(train=TRAIN)))
    for c in IFS:
        short = c.replace("IFAttributor", "IF-")
        if c not in ("IFAttributorArnoldi", "IFAttributorDataInf", "IFAttributorEKFAC"):
            out.append(Scen(f"{short}.attribute", IF + c, [("main", "attribute", TT)],
                            roles=dict(train=TRAIN, test=TEST)))
        out.append(Scen(f"{short}.cache+attribute", IF + c, [("cache", "cache", FULL2), ("main", "attribute", TT)],
                        roles=dict(train=TRAIN, test=TEST, full=FULL)))
        out.append(Scen(f"{short}.cache+self_attribute", IF + c,
                        [("cache", "cache", FULL2), ("main", "self_attribute", T1)],
                        roles=dict(train=TRAIN, full=FULL)))
    out.append(Scen("TRAK.attribute", TRAK, [("main", "attribute", TT)], roles=dict(train=TRAIN, test=TEST)))
    out.append(Scen("TRAK.cache+attribute", TRAK,
                    [("cache", "cache", FULL2), ("main", "attribute", dict(train_dataloader=NONE, test_dataloader=TEST))],
                    roles=dict(train=FULL, test=TEST, full=FULL)))
    out.append(Scen("TRAK.self_attribute", TRAK, [("main", "self_attribute", T1)], roles=dict(train=TRAIN)))
    out.append(Scen("TRAK.cache+self_attribute", TRAK,
                    [("cache", "cache", FULL2), ("main", "self_attribute", dict(train_dataloader=NONE))],
                    roles=dict(train=FULL, full=FULL)))
    out.append(Scen("RPS.cache+attribute", RPS, [("cache", "cache", FULL2), ("main", "attribute", TT)],
                    roles=dict(train=TRAIN, test=TEST, full=FULL), opaque=RPS_OPAQUE))
    out.append(Scen("RPS.attribute", RPS, [("main", "attribute", TT)],
                    roles=dict(train=TRAIN, test=TEST), opaque=RPS_OPAQUE))
    out.append(Scen("KNN.attribute", KNN, [("main", "attribute", TT)], init=dict(task=NONE),
                    roles=dict(train=TRAIN, test=TEST)))
    out.append(Scen("DVEmb.attribute", DVEMB, [("main", "attribute", TT)], roles=dict(train=TRAIN, test=TEST)))
    return out


BLOCK_PKG = "dattri.algorithm.block_projected_if."
BLOCK_OPAQUE = OPAQUE_MODS + (BLOCK_PKG + "core.", BLOCK_PKG + "offload.")
BLOCK_CALLS = {
    "Block.cache+attribute": [("cache", "cache", FULL2), ("main", "attribute", TT)],
    "Block.attribute": [("main", "attribute", TT)],
    "Block.cache+self": [("cache", "cache", FULL2), ("main", "compute_self_attribution", {})],
}


def blocks():
    """Block-projected attribution with the storage layer, hooks and compressors left opaque."""
    return [Scen(n, BLOCK, calls, opaque_mods=BLOCK_OPAQUE, roles=dict(train=TRAIN, test=TEST, full=FULL))
            for n, calls in BLOCK_CALLS.items()]


def get(name):
    for s in table() + blocks():
        if s.name == name:
            return s
    raise KeyError(name)
