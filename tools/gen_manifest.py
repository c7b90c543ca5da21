#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitor: reference model in lockstep with the real program over random histories"
T = {
 "C09": ("runtime monitor: list oracle over operation histories", "every operation of random histories checked against a list and a raw decode of the account bytes"),
 "C10": ("runtime monitor: sorted-map oracle over operation histories", "every operation checked against two sorted maps plus a full structural decode"),
 "C11": ("runtime monitor: naive re-computation of walks", "walks over random sides compared with a sort of all orders"),
 "C12": ("runtime monitor: naive re-computation of queries", "queries over random sides compared with sums over the valid orders"),
 "C01": (MODEL, "after every instruction: vaults against the sum of all claims, decoded from raw bytes; every history is wound down to empty vaults"),
 "C02": (MODEL, "every fill's maker, price, quantity and order compared with an independent matching model"),
 "C03": (MODEL, "every debit, wallet movement and traded total compared with the model under tight limits and poor wallets"),
 "C04": (MODEL, "every order type against every book state met; returned ids and postings compared"),
 "C05": (MODEL, "self-trade outcomes compared per mode, and one-account round trips must restore all balances"),
 "C06": (MODEL, "fees, rebates, referrer parts and volumes recomputed with integer arithmetic for every fill"),
 "C07": (MODEL, "every cancellation compared with the model, including repeated and foreign ones"),
 "C08": (MODEL, "events consumed in different orders and groupings must lead to equal balances, each exactly once"),
 "C13": (MODEL, "expiry boundaries met second by second, compared with the model"),
 "C14": (MODEL, "pegged placements, fills, drops and refunds compared with the model while the oracle moves"),
 "C15": (MODEL, "books are filled to the last node and postings compared with the model"),
 "C16": (MODEL, "every settlement and sweep compared in amounts and destinations"),
 "C20": (MODEL, "tables and books cross-checked after every instruction"),
 "C23": (MODEL, "every emitted log decoded and compared with the state change it reports"),
 "C29": (MODEL, "edits and batches compared with the model, partial fills and refusals included"),
 "C17": ("runtime monitor: every account role of real instructions forged or unsigned, effect must be nil", "each instruction met in random histories is replayed with one role altered; it must fail and change nothing, the unaltered one must succeed"),
 "C18": ("runtime monitor: creation, expiry and closing of markets compared with the stated rules", "market creation with valid and invalid parameters, all closing stages and every residue; account bytes, rent and logs compared"),
 "C19": ("runtime monitor: list oracle over histories of creating and closing accounts", "index and account bytes compared with a list after every instruction, up to the 257th account"),
 "C22": ("runtime monitor: independent computation of oracle prices, plus trades at the price", "price accounts of all kinds written byte by byte, read directly and through pegged trades"),
 "C24": ("runtime monitor: differential against a plain option", "all comparisons and stored forms of random, zero and single-bit keys"),
 "C25": ("runtime monitor: accept/refuse oracle and byte images over all views of crafted accounts", "all five account types through all loaders with wrong owner, tag, length and simultaneous borrows"),
 "C30": (MODEL, "every token and lamport movement seen at the token and system programs compared with the model; transfer helpers driven directly"),
 "C31": (MODEL, "ids seen in histories are collected and compared; encodings driven directly with extreme values"),
 "C21": ("AddressSanitizer build of the real program plus effect monitors under altered instructions and damaged accounts", "every byte behind an account is poisoned; whoever did not sign may not lose anything; sound books after every altered instruction that succeeds"),
 "C26": ("runtime monitor: client quotes against the real execution of the same order", "books grown by random histories; quoted amounts and account lists compared with the take order executed right after"),
 "C27": ("runtime monitor: fork-tree oracle over shuffled slot and account updates", "every read after every update compared with the newest write on the chain"),
 "C28": ("runtime monitor: instructions built and accounts, logs, errors decoded with the published interface file", "histories sent as instructions built from the interface file; a scripted market life whose every published field has a known value; structures and errors enumerated"),
 "C33": ("runtime monitor: answers of the real TypeScript client against raw decodes of accounts written by the real program", "the client runs under node on every state met in random histories; books, queues, balances, lookups and conversions compared"),
 "C34": ("runtime monitor: instructions built by the real TypeScript client executed next to hand-built ones", "verdict, error code and every account byte compared after each pair of executions in random histories; signers accounted for"),
 "C35": ("runtime monitor: transactions sent by the real Rust client executed next to hand-built instructions", "the library talks to a stand-in node that executes what it receives with the real program; effects, signers, fee instruction and answers compared in random histories"),
 "C38": ("runtime monitor: requests, node answers and the caller's result of the real helper judged against each other", "scripted nodes: statuses below and at the commitment, forks, failures at each request, hashes running out, durable nonces; account sizes; queues against a model"),
 "C36": ("runtime monitor: answers of the real fetchers against a log of what the source told, under random task interleavings", "tasks, failures, changing values and emptied caches interleaved step by step; message streams compared with a cache fed directly"),
 "C37": ("runtime monitor: requests of the real TypeScript sender reaching a stand-in connection, against what the request demands", "random options on provider, client and call, node and wallet failures at every step"),
 "C32": (MODEL, "penalty collection and repayment compared after every instruction"),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in T: continue
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}",
                   "technique": tech, "level": "exploration", "level_note": note,
                   "evidence_file": f"evidence/{i}.json"})
m = {"version": 1, "setup_cmd": "tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the monitors use the crate's public items", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "The harness (harness/) runs the real program in-process and checks every execution; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
