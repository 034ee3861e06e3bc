"""Plans: everything a run does besides the world's own coin tosses."""
import random

MS, S = 1000, 1_000_000
BAD_REGS = ["bad_token", "no_token", "no_conn", "bad_state", "extra", "result_first", "list_first", "shutdown_first", "unknown_type", "no_type",
            "text", "garbage", "list_msg", "unmasked", "silent", "tcp_silent", "http_garbage", "http_partial"]
ODD = ["dup_delete", "unknown_unknown", "phantom", "list", "register_again", "error_no_id", "error_unknown_id", "dup_result", "ping", "pong", "active"]
BAD = ["bad_text", "bad_garbage", "bad_type", "bad_fields", "bad_res", "bad_error", "bad_frame", "bad_utf8", "bad_state"]
TROUBLE = ["cut", "fin", "rst", "close", "hole", "hold", "hold_up", "stall", "zombie"]


def when(r, top):
    """Times, often crowded."""
    x = r.random()
    if x < 0.3:
        return r.randrange(50 * MS)
    if x < 0.6:
        return r.randrange(1 + top // 4)
    return r.randrange(top)


def trouble(r, top, rt):
    how = r.choice(TROUBLE)
    e = {"after_us": when(r, top), "how": how}
    if how in ("hole", "hold", "hold_up", "stall", "zombie"):
        e["for_us"] = r.choice([r.randrange(200 * MS), r.randrange(5 * S), r.randrange(60 * S), rt or 3 * S])
    if how == "close":
        e["code"] = r.choice([1000, 1000, 1001, 1011, 4000])
    return e


def gap(r, rt):
    """Until the next connection: at once, or about the reconnect timeout."""
    x = r.random()
    if x < 0.45 or rt is None:
        return r.choice([0, r.randrange(20 * MS), r.randrange(2 * S)])
    if x < 0.8:
        return max(0, rt + r.choice([-1, 1]) * r.choice([r.randrange(1 + 3 * MS), r.randrange(400 * MS), r.randrange(3 * S)]))
    return r.randrange(3 * rt + 1)


def plan(prop, seed):
    r = random.Random(f"plan:{prop}:{seed}")
    rt = r.choice([None, 0, 200 * MS, S, 3 * S, 10 * S, 30 * S])
    if prop == "C20" and rt is None:
        rt = r.choice([0, 500 * MS, 3 * S, 10 * S])
    token = r.choice(["", "s3cret", "pässword\nwith things", "x" * 300])
    top = r.choice([500 * MS, 5 * S, 20 * S])
    sched = {
        "cost_us": r.choice([0, 20, 200]),
        "stall_p": r.choice([0, 0, 0.01, 0.05]), "stall_us": r.choice([5 * MS, 100 * MS, 800 * MS]),
        "calm_us": top + 60 * S,
        "lat_us": r.choice([0, 50, 500, 20 * MS]), "jit_us": r.choice([0, 100, 2 * MS, 50 * MS]),
        "frag": r.choice([0, 0, 0.3, 0.9]), "window": r.choice([1 << 30, 65536, 4096, 600]),
    }
    groups = ["default", "g1", "g2"][: r.randint(1, 3)]
    agents = []
    same = r.random() < 0.15  # processes of one name on different agents
    for i in range(r.choice([1, 1, 2, 2, 3, 5])):
        g = r.choice(groups)
        conns = []
        for k in range(r.choice([1, 1, 2, 3, 5]) if prop != "C20" else r.choice([2, 3, 4, 6])):
            c = {"at_us": gap(r, rt) if k else r.choice([0, 0, when(r, top)]), "reg": "ok", "reg_us": r.choice([0, 0, 0, r.randrange(300 * MS), r.randrange(59 * S)]) if r.random() < 0.4 else 0}
            if r.random() < {"C18": 0.35}.get(prop, 0.06):
                c["reg"] = r.choice(BAD_REGS)
                if c["reg"] == "bad_token":
                    c["token"] = r.choice(["wrong", "", token + "x", token[:-1], token.upper() + "U", None, 5])
                    if c["token"] == token:
                        c["token"] = "wrong"
                if r.random() < 0.4:
                    c["then_ok"] = True
            if r.random() < (0.9 if prop == "C20" or k < 2 else 0.6) or c["reg"] != "ok":
                c["end"] = trouble(r, r.choice([50 * MS, top, 2 * top]), rt)
            if r.random() < 0.3:
                c["frames"] = r.choice([0.2, 1.0])
            n = []
            if r.random() < 0.5:
                n += [[when(r, 2 * top), r.choice(ODD)] for _ in range(r.randint(1, 4))]
            if r.random() < 0.15:
                n += [[when(r, 2 * top), r.choice(BAD)]]
            if n:
                c["noise"] = n
            conns.append(c)
        a = {"id": f"agent{i}", "group": g, "ip": f"10.0.0.{1 + i}", "conns": conns,
             "then_us": gap(r, rt) if r.random() < 0.75 else None,
             "delay_us": r.choice([[0, 0], [0, 200], [MS, 50 * MS], [0, S]]),
             "procs": [[f"some-{j}" if same else f"own{i}-{j}", r.choice([None, when(r, top)])] for j in range(r.choice([0, 0, 1, 3]))]}
        if r.random() < 0.2:
            t = when(r, 2 * top)
            a["shut"] = r.choice([[[t, "idling"]], [[t, "done"]], [[t, "idling"], [t + when(r, top), "done"]]])
        agents.append(a)
    ops = []
    n = r.choice([1, 3, 6, 12]) if prop != "C20" else r.choice([1, 3, 5])
    for j in range(n):
        t = when(r, 2 * top)
        x = r.random()
        if x < 0.8 or not any(a["procs"] for a in agents):
            id = f"p{j}"
            o = {"at_us": t, "op": "start", "id": id, "group": r.choice(groups + (["nogroup"] if r.random() < 0.1 else [])),
                 "timeout_us": r.choice([0, 0, 100 * MS, 3 * S, 60 * S, r.randrange(1, 2 * top)]),
                 "dur_us": r.choice([0, when(r, top), when(r, top), None])}
            if r.random() < 0.12:
                o["refuse"] = True
                if r.random() < 0.5:
                    o["retry_us"] = r.choice([0, 0, when(r, 5 * S)])
            if r.random() < 0.15:
                o["pad"] = r.choice([500, 20000, 200000])
            if r.random() < 0.4:
                o["api"] = "start"
            if r.random() < 0.1:
                o["cancel_us"] = when(r, 5 * S)
            alone = [a["id"] for a in agents if a["group"] == o["group"]]
            if len(alone) == 1 and "cancel_us" in o and r.random() < 0.8:
                o["again"] = {"after_us": r.choice([0, when(r, 5 * S)]), "op": "reconnect", "conn": alone[0], "id": id, "timeout_us": r.choice([0, S, 30 * S]), "consume": {"until": "end"}}
        else:
            a = r.choice([a for a in agents if a["procs"]])
            id = r.choice(a["procs"])[0]
            o = {"at_us": t, "op": "reconnect", "conn": a["id"] if r.random() < 0.9 else "nobody", "id": id, "timeout_us": r.choice([0, 0, S, 30 * S, r.randrange(1, 2 * top)])}
        if r.random() < 0.95:
            # How it waits for news.
            wait = {"wait_us": r.choice([0, 1, when(r, S), when(r, 20 * S)]), "rest_us": r.choice([0, 0, when(r, S)])} if r.random() < 0.2 else {}
            o["consume"] = {"until": r.choice(["end", "end", "terminal"]), "delay_us": r.choice([0, 0, 0, 10 * MS, S])}
            if o["consume"]["until"] == "terminal" and r.random() < 0.8:
                o["consume"]["then"] = "delete"
            o["consume"] |= wait
        acts = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            k = r.choice(["result", "result", "fd", "signal", "delete", "await_delete"])
            q = {"at_us": when(r, 2 * top), "op": k}
            if k == "signal":
                q["signum"] = r.choice([9, 15, 1])
            acts.append(q)
        if r.random() < 0.3:
            # An end, and news crossing it.
            e = when(r, 2 * top)
            acts += [{"at_us": e, "op": "delete"}, {"at_us": e + r.choice([0, 1, 500]), "op": r.choice(["result", "delete", "fd"])}]
        if acts:
            o["acts"] = sorted(acts, key=lambda a: a["at_us"])
        ops.append(o)
    # Looking at the processes of given up agents again.
    for a in agents:
        for id, _ in a["procs"]:
            if r.random() < 0.5:
                ops.append({"at_us": r.randrange(4 * top), "op": "reconnect", "conn": a["id"], "id": id, "timeout_us": r.choice([0, S, 20 * S]), "consume": {"until": "end"}})
    if r.random() < 0.08:
        ops.append({"at_us": when(r, 2 * top), "op": "restart", "down_us": r.choice([0, when(r, 5 * S)])})
    for a in agents:
        for c in a["conns"]:
            if r.random() < 0.1:
                c["ip"] = r.choice(["10.0.0.77", "10.1.2.3"])
    if rt is None and not any(o["op"] == "restart" for o in ops):
        # Coming back under another group.
        for a in agents:
            for k, c in enumerate(a["conns"]):
                if k and c["reg"] == "ok" and "shut" not in a and r.random() < 0.3:
                    c |= {"reg": "other_group", "group": r.choice([g for g in ["default", "g1", "g2", "g3"] if g != a["group"]])}
    ops.sort(key=lambda o: o["at_us"])
    return {"prop": prop, "seed": seed, "token": token, "reconnect_timeout_us": rt, "sched": sched, "agents": agents, "ops": ops,
            "horizon_us": 4 * top + 200 * S}
