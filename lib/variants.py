"""Deliberately wrong variants of the sequential designs (definitions replaced by
those at the end of each module): (module, property that must fail, definitions, constants)."""
from concurrent.futures import ThreadPoolExecutor

V = [
    ("LRUCacheMC", "Consistent", {"Ref": "RefStays"}, {"MaxIns":2}),
    ("LRUCacheMC", "Consistent|NoOtherEviction", {"Unref": "UnrefDrops"}, {"MaxIns":2}),
    ("LRUCacheMC", "Consistent|EvictEnough", {"FinishErase": "EraseKeepsCharge"}, {"MaxIns":2}),
    ("LRUCacheMC", "Pinned|Consistent", {"FinishErase": "EraseDestroys"}, {"MaxIns":2}),
    ("LRUCacheMC", "Consistent|ExactlyOnce", {"FinishErase": "EraseLeaks"}, {"MaxIns":2}),
    ("LRUCacheMC", "EvictRight", {"Evict": "EvictNewest"}, {"MaxIns":3,"MaxHandles":1,"Keys":'{"a", "b", "c"}'}),
    ("LRUCacheMC", "EvictRight", {"Unref": "UnrefFront"}, {"MaxIns":3,"MaxHandles":1,"Keys":'{"a", "b", "c"}'}),
    ("LRUCacheMC", "EvictRight", {"Evict": "EvictAll"}, {"MaxIns":3}),
    ("LRUCacheMC", "EvictEnough", {"Evict": "EvictLess"}, {"MaxIns":3}),
    ("LRUCacheMC", "Consistent", {"DoInsert": "InsertBeside"}, {"MaxIns":2}),
    ("ArenaMC", "Accounted", {"Obtain": "NoCount"}, {}),
    ("ArenaMC", "AllDisjoint|Sound", {"AfterCurrent": "TopShort"}, {}),
    ("ArenaMC", "AllDisjoint|Sound", {"AfterOwn": "OwnCurrent"}, {}),
    ("ArenaMC", "AllDisjoint|Sound", {"AfterStd": "StdNotTaken"}, {}),
    ("ArenaMC", "AllDisjoint|Sound", {"Room": "RoomMore"}, {}),
    ("MemEnvMC", "ContentsExact", {"Create": "CreateKeeps"}, {"MaxSteps":5}),
    ("MemEnvMC", "NamesStay", {"Create": "CreateNew"}, {"MaxSteps":5}),
    ("MemEnvMC", "OneFilePerName", {"Rename": "RenameLinks"}, {"MaxSteps":5}),
    ("MemEnvMC", "NoDangling", {"Gc": "GcByName"}, {"MaxSteps":5}),
    ("MemEnvMC", "NoDangling", {"Gc": "GcNever"}, {"MaxSteps":5}),
    ("MemEnvMC", "ContentsExact", {"Append_": "AppendFront"}, {"MaxSteps":5}),
    ("PosixFsMC", "TreeOK|RenameMoves", {"Moved": "MovedAlone"}, {"MaxSteps":4}),
    ("PosixFsMC", "RenameMoves", {"Moved": "Copied"}, {"MaxSteps":4}),
    ("PosixFsMC", "LinksStay|TreeOK|OnlyNamed", {"Follows": "FollowsAll"}, {"MaxSteps":4}),
    ("PosixFsMC", "TreeOK|RenameMoves", {"Kids": "NoKids"}, {"MaxSteps":4}),
    ("StatusMC", "NoSharing|NoDangling", {"Copy": "CopyShares"}, {"MaxSteps":5}),
    ("StatusMC", "NoLeak", {"Free": "FreeNever"}, {"MaxSteps":5}),
    ("CodingMC", "RoundTrip", {"NumGroups": "GroupsLess"}, {}),
    ("CodingMC", "RoundTrip|Canonical", {"NumGroups": "GroupsMore"}, {}),
    ("CodingMC", "RoundTrip", {"MaxGroups": "MaxLess"}, {}),
    ("CodingMC", "FixedTrip", {"Fixed": "FixedSwapped"}, {}),
    ("TextMC", "FitRight", {"NumLE": "LexOnly"}, {}),
    ("TextMC", "ConvRight|FitRight", {"InBase": "InBaseRev"}, {}),
    ("HashMC", "Agree", {"Words": "WordsOnly"}, {}),
    ("HashMC", "Agree", {"HashOf": "NoLength"}, {}),
    ("LehmerMC", "Exact|InRange", {"NextOf": "NoWrap"}, {}),
    ("ByteOrderMC", "Total", {"Cmp": "CmpShort"}, {}),
]

def rejected(ctx, *modules):
    todo = [v for v in V if v[0] in modules]
    with ThreadPoolExecutor(4) as ex:
        for r in [ex.submit(ctx.mc_must_fail, m, e, subst=s, override=o, workers=1) for m, e, o, s in todo]:
            r.result()
