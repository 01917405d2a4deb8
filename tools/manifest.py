import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
ids=subprocess.run(['/verif/sim/target/release/sim','list'],capture_output=True,text=True).stdout.split()
notes={
'C01':"Seeded sampling over generated and real type tables, valid and damaged records, slow paged device and plain memory; oracle is an independent reference decoder written for this harness (trusted), sharing only output types with the crate.",
'C02':"Every read of each sampled operation is failed in turn (sweep) or by seeded bursts and bad ranges; oracle is the operation's own fault-free outcome. Assumes the device either delivers stored bytes or an error.",
'C03':"As C02; oracle: the returned error carries an error value the device returned in this very operation. Each injected failure has its own code.",
'C04':"Seeded histories of failures and retries on shared metadata, device and marked transactions; oracle is the outcome on a fresh device.",
'C05':"Every cut of each sampled accepted record (both ends and seeded places above 300 bytes).",
'C06':"Every sampled accepted record with seeded stale tails at its end and at inner boundaries; oracle: refusal, and the reference decoder for damaged records. One known finding (inner surplus in extrinsics).",
'C07':"Damage, unreadable ranges and rewriting while decoding confined to one part of sampled transactions; oracle: unchanged outcome of the other part, and the reference decoder.",
'C08':"Seeded near misses of version, genesis and block hash, era, extension sets and version records; oracle: independent gate over reference-decoded extensions and ground truth of the generator.",
'C09':"Every bit of sampled storage keys flipped in turn, parts cut, extended, swapped; oracle: independently computed hashes and the reference decoder.",
'C10':"Seeded interleavings of sessions at every memory read under a scheduler that runs one thread at a time, with failures in other sessions; oracle: outcome of the operation alone in a fresh process.",
'C11':"Seeded damage of records and type tables, also while they are being read; judged by termination within a read budget, memory limit, absence of panics, and display of what was decoded. Two known findings are kept out of the generated runs and probed separately.",
'C12':"All 256 version bytes and seeded length damage for sampled extrinsics of chains with any extrinsic version; oracle: ground truth of the generator and the reference decoder.",
'C13':"Everything outside of sampled items erased, rewritten while decoding, or unreadable; oracle: unchanged outcome; position equals the sum of encoded lengths for consecutive items.",
'C14':"Every metadata query of each sampled operation failed in turn, alone and with memory failures; oracle: the error carried is that failure's own code. Damaged version records of V14/V15 metadata.",
}
notes['C18']="The same seeded simulated runs in the 64-bit build with std and in a wasm32 build without std (built from the same tree with the nightly toolchain's own library sources, run by node), outcomes compared; overflow checks on in both. wasm32 stands for all 32-bit targets."
na={
'C15':"Pure arithmetic formatting of one integer: no memory, I/O, schedule or session takes part, so there is nothing to simulate or to inject. Left to other techniques.",
'C16':"Pure in-memory formatting of an already decoded value; no nondeterminism or fault can reach it. (That display never panics is part of C11.)",
'C17':"Pure function of two bytes without any environment; no schedule, fault or history for a simulator to vary.",
}
checks=[]
for i in ids:
    checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
      evidence_file=f"evidence/{i}.json",technique="deterministic simulation with fault injection (seeded search)",level="exploration",level_note=notes[i]))
nal=[dict(property=k,reason=v) for k,v in na.items()]
for p in props:
    if p['id'] not in ids and p['id'] not in na:
        nal.append(dict(property=p['id'],reason="check not built yet"))
json.dump(dict(version=1,setup_cmd="bash check.sh build",checks=checks,not_applicable=nal,
  notes="No hooks: the seams are the crate's own traits (AddressableBuffer, ExternalMemory, ResolveType, AsMetadata, AsCompleteMetadata)."),open('/verif/MANIFEST.json','w'),indent=1)
