#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T="deterministic simulation with fault injection: seeded search over "
D={
"C01":("read schedules (cuts, empty, would-block, interrupted, end of stream) of generated streams, whole-message decoding as reference","Samples schedules and inputs, not all of them. Trusts only that decoding a message whole is the reference; C06, C07, C12 judge that independently."),
"C02":("read schedules of back-to-back messages, boundaries from an independent reference framing","Samples. The reference framing is twenty lines of its own code."),
"C03":("output-space schedules and histories of one encoder, one-shot encoding and announced sizes as reference","Samples. The one-shot encoding itself is judged by C05 and C07."),
"C04":("histories of deliveries to a long-lived decoder, a new decoder as reference","Samples histories; assumes a caller takes a finished item out before going on."),
"C05":("histories of messages around the size limits through a long-lived encoder, reference encoder as oracle","Samples, weighted to the limits."),
"C06":("network and crash schedules between long-lived nodes, delivered-intact messages compared with what was built","Samples. A symmetric encode/decode error is C07's."),
"C07":("network schedules between the library and an independent reference peer","Samples. Trusts the reference codec (sim/src/refstun.rs, written from the RFCs); values on which the RFCs disagree are accepted either way."),
"C08":("damage in transit and forwarding histories, reference CRC-32 over the arrived bytes as oracle","Samples. Trusts the reference CRC-32 and framing. One known finding (user-defined attributes whose preparation does not restore what arrived)."),
"C09":("attacker edits, replays and splices, reference HMAC-SHA1 over the arrived bytes as oracle","Samples. Trusts the reference HMAC-SHA1; its own vectors are self-tested. One known finding (as C08)."),
"C10":("credentials, near misses and 401/438 dialogs with server restarts, reference key derivation as oracle","Samples. Trusts the reference MD5 and HMAC-SHA1."),
"C11":("call sequences (constructors, value codecs by hand, codec endurance included) and hostile bytes with panic capture, overflow checks, debug assertions and a stall watchdog","Samples. A call that has not returned after 20 s counts as a hang; overflow checks and debug assertions are compiled in."),
"C12":("read schedules of streams with invalid values and lying lengths, reference verdict as oracle","Samples. Trusts the reference codec; contested values are accepted either way."),
"C13":("relay chains over faulty datagram and stream links with crashes, byte equality as oracle","Samples."),
"C14":("receivers with different attribute sets and 420 dialogs over a faulty network, reference classification as oracle","Samples."),
"C15":("programs with attributes of their own and failing hooks, call-sequence model as oracle","Samples. What a codec does after attribute code panicked in it is left open; the program drops it."),
"C16":("histories of announced, broken and foreign messages with every allocation metered","Samples. The bound (192 KiB + 160 bytes per byte) is calibrated with slack of about six; smaller regressions pass. One known finding (messages of many MESSAGE-INTEGRITY attributes)."),
"C17":("interleavings and thread migrations of sets of instances, each instance alone as reference","Samples. Threads are switched between calls, and inside calls at drawn allocations, instructions and accesses to shared memory; memory reordering between cores is not simulated. x86-64 only for the switches inside calls."),
"C18":("loss, duplication, reordering, damage, partitions, clock jumps and crashes around retransmitting clients and a server, safety at every step and completion after the faults stop","Samples. Liveness is completion within a bound of simulated time after the faults stop."),
}
checks=[dict(property=k,quick_cmd=f"./check.sh {k} quick",thorough_cmd=f"./check.sh {k} thorough",technique=T+v[0],level="exploration",level_note=v[1]) for k,v in D.items()]
m=dict(version=1,setup_cmd="./check.sh build",checks=checks,
 not_applicable=[
  dict(property="C19",reason="Range checks of constructors are pure functions of their arguments: no schedule, time, I/O, history or second party for a simulator to decide. (What decoders do with out-of-range values on the wire is C12.)"),
  dict(property="C20",reason="Tables of constants and stateless conversions: nothing for a simulated schedule or fault to influence. (Those that appear on the wire are compared with an independent peer under C07.)"),
 ],
 notes="No hooks in /repo: the codec is sans-I/O, so bytes, output space, time, crashes and threads are all decided outside it. /repo carries fix: commits only; see KNOWN_FINDINGS.txt. Replay: ./check.sh replay <file>. Determinism self-test: ./check.sh determinism.")
json.dump(m,open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'MANIFEST.json'),'w'),indent=1)
