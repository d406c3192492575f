----------------------------- MODULE BundleClock -----------------------------
(* When a growing reconstruction is bundled or triangulated again: counters of *)
(* points and shots since the last time, against ratios in tenths.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAXP, MAXS, LEN, Cfgs
VARIABLES cfg, p, s, bp, bs, rp, acts, p0, s0
vars == <<cfg, p, s, bp, bs, rp, acts, p0, s0>>
Bundle(c, pp, ss, bpp, bss) == 10 * pp >= bpp * c.ratio \/ ss >= bss + c.interval
Retri(c, pp, rpp) == c.active = 1 /\ 10 * pp > rpp * c.rratio
B2I(b) == IF b THEN 1 ELSE 0
Init == /\ cfg \in Cfgs /\ p \in {0, 10} /\ s \in {0, 2} /\ bp = p /\ bs = s /\ rp = p /\ acts = <<>> /\ p0 = p /\ s0 = s
Log(a, n, pp, ss, bpp, bss, rpp) == acts' = Append(acts, <<a, n, B2I(Bundle(cfg, pp, ss, bpp, bss)), B2I(Retri(cfg, pp, rpp))>>)
AddP == \E n \in {-2, 1, 2, 5} : /\ p + n >= 0 /\ p + n <= MAXP /\ p' = p + n /\ UNCHANGED <<cfg, s, bp, bs, rp, p0, s0>> /\ Log("points", n, p + n, s, bp, bs, rp)
AddS == \E n \in {1, 2} : /\ s + n <= MAXS /\ s' = s + n /\ UNCHANGED <<cfg, p, bp, bs, rp, p0, s0>> /\ Log("shots", n, p, s + n, bp, bs, rp)
Bundled == /\ bp' = p /\ bs' = s /\ UNCHANGED <<cfg, p, s, rp, p0, s0>> /\ Log("bundled", 0, p, s, p, s, rp)
Retried == /\ bp' = p /\ bs' = s /\ rp' = p /\ UNCHANGED <<cfg, p, s, p0, s0>> /\ Log("retri", 0, p, s, p, s, p)
Next == Len(acts) < LEN /\ (AddP \/ AddS \/ Bundled \/ Retried)
Spec == Init /\ [][Next]_vars
Fresh == acts # <<>> /\ acts[Len(acts)][1] = "retri" => ~Retri(cfg, p, rp) \/ cfg.rratio < 10
Grows == Bundle(cfg, p, s, bp, bs) \/ s < bs + cfg.interval
Emit == Len(acts) = LEN => PrintT("@@" \o ToJson([interval |-> cfg.interval, ratio |-> cfg.ratio, active |-> cfg.active, rratio |-> cfg.rratio, p0 |-> p0, s0 |-> s0, acts |-> acts]))
C1 == {[interval |-> i, ratio |-> r, active |-> a, rratio |-> q] : i \in {1, 3}, r \in {12, 20}, a \in {0, 1}, q \in {12, 15}}
=============================================================================
