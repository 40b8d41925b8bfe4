#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements can be edited comfortably)."""
import json, os
M='src/message.rs'; A='src/attribute.rs'; MAC='src/macros.rs'; NET='src/net.rs'
R5389='src/rfc5389/attributes.rs'
def mech(*l): return [dict(name=n,where=w) for n,w in l]
P=[]
def p(id,title,st,over,q,why,files,mechanism,state=None,observe=None):
    a=dict(files=files,mechanism=mech(*mechanism))
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))
DEC=("message decoding","src/message.rs MessageDecoder::decode, finish_decoding, requiring_bytes, is_idle")
ENC=("message encoding","src/message.rs MessageEncoder::start_encoding, encode, exact_requiring_bytes, is_idle")
ADEC=("attribute TLV decoding","src/attribute.rs LosslessAttributeDecoder")
AENC=("attribute TLV encoding","src/attribute.rs LosslessAttributeEncoder")
SETS=("attribute set dispatch","src/macros.rs define_attribute_enums!")

p("C01","How received bytes are segmented never changes what is decoded",
 "Decoding a byte stream yields the same sequence of results (the same message with the same header, attributes and order; the same broken message; or a rejection) however the bytes are cut into pieces, with empty reads, would-block and interrupted reads in between, and whichever of the library's ways of driving the decoder is used. The result is that of decoding each message whole.",
 ["schedules","inputs","fault_sequences"],"all byte streams of messages (valid, odd, broken, foreign tails), all read schedules, all driving modes",
 "The tests decode each sample in one call; segmentation invariance quantifies over every cut of every input.",
 [M,A,MAC,NET,R5389],[DEC,ADEC,SETS],
 [("partial decoding state","which field of which attribute the decoder is in","src/message.rs MessageDecoder{header,attributes}; src/attribute.rs LosslessAttributeDecoder{..}")],
 ["results of Decode::finish_decoding over a stream"])
p("C02","The decoder takes exactly its message and asks for exactly what it needs",
 "From a stream of back-to-back messages the decoder consumes each message up to its announced length and not a byte more, becomes finished exactly when that many bytes have been given, and leaves the next message's bytes untouched. The number of further bytes it announces as required is never more than what the message still lacks, is non-zero while bytes are lacking, and is zero when the message is complete, so that a reader following it neither blocks on bytes that belong to no message nor reads past the message.",
 ["schedules","inputs","histories"],"all streams of well-framed messages, all offered sizes, before and after every step, from the second message of a connection on as well",
 "The tests never look at consumed counts or announced demand between steps, nor at a second message through the same decoder.",
 [M,A,MAC],[DEC,ADEC,SETS],None,["return value of decode", "requiring_bytes", "is_idle"])
p("C03","Encoded bytes do not depend on the output schedule; announced sizes are exact",
 "However output space is granted (in pieces of any size, with would-block and interrupted writes in between, one message after another through one encoder), a message's encoding is the same bytes as when encoded in one call; before the start and after every step the encoder announces exactly the number of bytes still to come and is finished exactly when that is zero. A message offered while another is in progress is refused without disturbing it, and an end of output space announced before the encoding is complete is an error, not silent truncation.",
 ["schedules","inputs","histories","fault_sequences"],"all messages the library can represent, all output schedules, all sequences of messages through one encoder",
 "The tests encode whole messages into one buffer, once per encoder.",
 [M,A,MAC],[ENC,AENC,SETS],None,["bytes produced", "exact_requiring_bytes", "is_idle"])
p("C04","A long-lived decoder treats every message like a new decoder would",
 "Whatever a decoder was fed before (valid messages, broken messages, bytes that were rejected with an error, messages cut short by an end of stream, results taken out too early), the next message it is given yields exactly the result a newly made decoder yields. Nothing of an earlier message (attributes, lengths, error state) is carried over.",
 ["histories","inputs","schedules","fault_sequences"],"all histories of deliveries to one decoder, all next messages",
 "The tests use a new decoder for each message.",
 [M,A,MAC],[DEC,ADEC,SETS,("recovery after a rejection","src/message.rs MessageDecoder::decode resets itself on error; finish_decoding resets attributes of a broken message")])
p("C05","The encoder refuses a message or emits a well-formed one, and stays usable",
 "A message is accepted for encoding exactly when it can be represented (every attribute value and the whole attribute part within 65535 bytes); what is emitted then is a well-formed message whose length field equals the attribute bytes that follow and is a multiple of four. A refused message leaves the encoder as if it had never been offered: idle, announcing nothing to emit, and encoding the next message exactly as a new encoder would.",
 ["inputs","histories"],"all messages around and beyond the size limits, all histories of accepted and refused messages through one encoder",
 "The tests encode small messages only and never reuse an encoder after a refusal.",
 [M,A],[ENC,AENC,("length limits","src/message.rs MessageEncoder::start_encoding; src/attribute.rs LosslessAttributeEncoder::start_encoding")])
p("C06","What arrives intact is what was sent",
 "Every message built through the public interface and delivered intact over a lossy, duplicating, reordering or segmenting network is read by the receiver with the same class, method, transaction identifier and the same attributes with the same values in the same order, and a stream delivers messages in the order sent until it is reset. A receiver never reports a message that nobody sent, apart from damage the receiver cannot notice.",
 ["inputs","schedules","fault_sequences","histories"],"all messages of all supported attribute types and user-composed attribute sets, all nodes with long-lived encoders and decoders, all fault schedules",
 "The tests check a few sample messages; fidelity quantifies over every attribute value and over sequences through one pair of codecs under network faults.",
 [M,A,MAC,NET,R5389,'src/rfc5245/attributes.rs','src/rfc5766/attributes.rs','src/rfc5780/attributes.rs','src/rfc8016/attributes.rs','src/rfc8656/attributes.rs'],
 [DEC,ENC,ADEC,AENC,SETS,("attribute value codecs","src/rfc*/attributes.rs")])
p("C07","Bytes on the wire follow the RFCs, in both directions",
 "What the library emits for a message is byte for byte the encoding the RFCs prescribe (message type bits, length, magic cookie, attribute codepoints, values, address XOR, padding), and any encoding the RFCs allow for a message, including non-zero padding and set reserved bits, is read with the meaning the RFCs give it. Two parties, one on this library and one on an independent implementation, therefore understand each other over any network schedule.",
 ["inputs","schedules","fault_sequences"],"all messages of all supported attributes, methods and classes, in both directions between the library and an independently written peer",
 "Self round trips cannot see an error made symmetrically by encoder and decoder; the tests compare two RFC 5769 vectors and a few hand-made ones.",
 [M,A,NET,R5389,'src/rfc5389/methods.rs','src/rfc5766/methods.rs','src/rfc5245/attributes.rs','src/rfc5766/attributes.rs','src/rfc5780/attributes.rs','src/rfc8016/attributes.rs','src/rfc8656/attributes.rs'],
 [("message type","src/message.rs Type::as_u16, from_u16"),("XOR of addresses","src/net.rs socket_addr_xor, SocketAddrDecoder/Encoder"),("attribute value codecs","src/rfc*/attributes.rs"),("padding","src/attribute.rs Padding")])
p("C08","A message with a FINGERPRINT is accepted exactly when its CRC matches",
 "A received message carrying a fingerprint is reported as a valid message exactly when the fingerprint equals the CRC-32 (with the STUN XOR constant) of the bytes received before it, with the length field set as the standard prescribes; otherwise it is reported as broken. A fingerprint the library adds has that value for the bytes it sends, also on forwarded messages and wherever the attribute stands.",
 ["inputs","fault_sequences","histories"],"all messages, all damage in transit, all senders (library, other implementation, forwarding hop)",
 "The tests check the value on one RFC vector; they never damage a message.",
 [R5389,M,A],[("fingerprint","src/rfc5389/attributes.rs Fingerprint::{new, before_encode, after_decode}"),("received bytes kept","src/attribute.rs ReceivedValue, Padding")])
p("C09","Message integrity verifies exactly when nothing it covers was changed",
 "Checking a received message's integrity attribute with a key succeeds exactly when the attribute equals HMAC-SHA1 under that key over the message as received up to that attribute (with the length field set as the standard prescribes). Any change to the covered header or attributes, by flips, insertion, removal, reordering, splicing or padding edits, makes it fail, and changes behind the attribute do not.",
 ["inputs","fault_sequences","histories"],"all messages with integrity attributes at any place, all attacker edits, replays and splices between captured messages",
 "The tests check three RFC 5769 vectors; no test tampers with a message.",
 [R5389,M,A],[("message integrity","src/rfc5389/attributes.rs MessageIntegrity::{new_long_term_credential, new_short_term_credential, before_encode, after_decode, check_*}"),("received bytes kept","src/attribute.rs ReceivedValue, Padding")])
p("C10","Only the right credential verifies, short-term or long-term",
 "A message protected with a credential verifies with that credential and mechanism, and with no credential from which the standard derives another key: another password, user name or realm, one differing in case or length, or the other mechanism, is refused. A dialog with a server that answers 401 and 438 and forgets nonces at restarts ends in success for a client with the right credential and never in success for one without.",
 ["inputs","histories","fault_sequences","crash_points"],"all credentials and near misses, all message contents, all dialog schedules with server restarts",
 "The tests verify one long-term and two short-term vectors with the right credential only.",
 [R5389],[("key derivation","src/rfc5389/attributes.rs MessageIntegrity::{new_long_term_credential, new_short_term_credential, check_long_term_credential, check_short_term_credential}")])
p("C11","No input or sequence of calls makes the library panic, hang or loop",
 "Whatever bytes arrive, in whatever pieces, and whatever sequence of public codec calls a program makes (legal or not, including on items that came out of hostile bytes), every call returns in bounded time with a result or an error. No call panics, overflows, aborts, or stops making progress while input or output space is available.",
 ["inputs","histories","schedules","programs"],"all byte sequences, all sequences of public calls on decoders, encoders, messages, attributes and errors",
 "The tests contain no malformed input and no misuse.",
 [M,A,MAC,NET,R5389,'src/rfc5245/attributes.rs','src/rfc5766/attributes.rs','src/rfc5780/attributes.rs','src/rfc8016/attributes.rs','src/rfc8656/attributes.rs'],
 [DEC,ENC,("unchecked indexing","src/message.rs before_encode/after_decode loops (unsafe)"),("digests","src/rfc5389/attributes.rs"),("attribute value codecs","src/rfc*/attributes.rs")])
p("C12","Broken messages are reported as such, with their header, and are skipped whole",
 "A received message is reported as valid exactly when its framing is sound and every attribute the receiver understands has a value its specification allows. Otherwise, if its header is sound, it is reported as broken with the method, class and transaction identifier it carried, all of its announced length is consumed, and the message behind it is read normally; bytes whose header is not that of a STUN message are rejected with an error.",
 ["inputs","schedules","histories"],"all messages with invalid values, lying attribute lengths, cut or overrunning attributes, at any place, under any segmentation",
 "The tests contain one broken message; acceptance of invalid values and resynchronisation are not tested.",
 [M,A,R5389,'src/rfc5766/attributes.rs','src/rfc5780/attributes.rs','src/rfc5245/attributes.rs','src/rfc8656/attributes.rs','src/rfc8016/attributes.rs'],
 [("error latch and skip","src/message.rs AttributesDecoder"),DEC,("value checks","src/rfc*/attributes.rs decoders")])
p("C13","A relay that forwards what it received forwards it unchanged",
 "A message received and sent on by a program, through any number of such hops with different sets of understood attributes, leaves each hop byte for byte as it arrived: unknown attributes, order, padding bytes and reserved bits included. If a hop appends attributes, the received bytes stay as they were in front of them apart from the length field, so that digests made by the origin still verify behind the relays.",
 ["inputs","histories","configurations","fault_sequences"],"all accepted messages, all chains of hops and attribute sets, datagram and stream links, appended attributes",
 "One test forwards nothing; losslessness quantifies over all accepted bytes and over receivers with different attribute sets.",
 [A,M,MAC],[("lossless attributes","src/attribute.rs LosslessAttribute, Padding, RawAttribute, ReceivedValue"),DEC,ENC])
p("C14","Unknown attributes are set apart and reported; the first of a kind wins",
 "For every receiver and message, each attribute comes out exactly once, in order, among the known ones if its type belongs to the receiver's set and among the unknown ones with its type and value bytes otherwise, with types below 0x8000 classified as comprehension-required; looking up a kind gives its first occurrence. A server that answers 420 listing the unknown comprehension-required types therefore lists exactly those, and a client that drops them succeeds.",
 ["inputs","configurations","histories","fault_sequences"],"all attribute sets, all mixtures of known, repeated, near-miss and unknown attributes, all dialog schedules",
 "The tests use one attribute set and one unknown attribute.",
 [A,M,MAC,R5389],[SETS,("known and unknown","src/message.rs Message::{attributes, unknown_attributes, get_attribute}"),("comprehension","src/attribute.rs AttributeType"),("unknown list","src/rfc5389/attributes.rs UnknownAttributes")])
p("C15","User-defined attributes are called in order, once, with what precedes them",
 "Before a message is sent each attribute's preparation runs once, in order, seeing exactly the header and the attributes in front of it, and what it changes is what is sent; a failure refuses the message. After a message is received each understood attribute's check runs once, in order, seeing exactly the received header and the attributes in front of it, what it changes is what the program reads, and a failure makes the message broken and stops the checks behind it.",
 ["programs","inputs","schedules","fault_sequences"],"all user-defined attributes that observe, rewrite, grow, checksum or fail, mixed with standard and unknown ones, under any segmentation and network faults",
 "No test defines an attribute with such hooks.",
 [A,M,MAC],[("hooks","src/attribute.rs Attribute::{before_encode, after_decode}; src/message.rs loops over attributes"),SETS])
p("C16","Memory follows the bytes actually received and is given back",
 "The memory a decoder or encoder needs is bounded by a constant plus a constant factor times the bytes actually received or sent, whatever lengths those bytes announce. After each message is dropped only a bounded reserve, independent of how many messages came before, is kept, and all of it is returned with the codec.",
 ["inputs","histories"],"all histories of messages, including announced-but-not-sent, broken and foreign ones (known exception: many integrity attributes in one message)",
 "The tests do not measure memory.",
 [M,A,R5389],[("buffers","bytecodec RemainingBytesDecoder, PreEncode; src/attribute.rs known_bytes, ReceivedValue"),DEC,ENC])
p("C17","Codec instances do not influence each other, on one thread or several",
 "What one decoder, encoder or authenticator yields depends only on its own history: any number of other instances working in between, on the same or other threads, with any interleaving, with instances moving between threads or being dropped half-way, changes nothing it yields.",
 ["schedules","programs","crash_points"],"all sets of programs, all interleavings of their steps over one or several threads, migration, drops at any step",
 "The tests run one instance at a time.",
 [M,A,R5389,MAC],[("no shared mutable state","whole crate: no statics beyond constants"),("digests","src/rfc5389/attributes.rs MessageIntegrity, Fingerprint (HMAC and CRC state)")])
p("C18","Transactions complete after faults stop, each with its own answer",
 "With clients that retransmit and a server, all long-lived and using the library for every message over a network with loss, duplication, reordering, damage, partitions, connection resets, clock jumps and crashes, every answer a client accepts carries the identifier of one of its outstanding transactions and the content the server produced for that request, and a retransmission is byte for byte the first transmission. Once faults stop, every outstanding transaction completes within a bounded time.",
 ["schedules","fault_sequences","crash_points","histories"],"all workloads of requests with success, 401, 420, 400 and 438 answers, all fault schedules that eventually stop",
 "The tests contain no network, no time and no second party.",
 [M,A,R5389,'src/transaction_id.rs'],[DEC,ENC,("transaction identifiers","src/transaction_id.rs")])
p("C19","Value types refuse values outside their specified range",
 "Constructing an attribute value from arguments outside the range its specification gives (error codes, channel numbers, text lengths, realm and nonce lengths) is refused, and every value inside the range is accepted and read back unchanged.",
 ["inputs"],"all constructor arguments",
 "The tests construct a few in-range values.",
 [R5389,'src/rfc5766/attributes.rs'],[("range checks","constructors in src/rfc*/attributes.rs")])
p("C20","Constants, codepoints and small conversions are those of the registries",
 "Every named method, attribute codepoint, error code with its reason phrase, and conversion between numbers and named classes equals the value in the IANA registries and the RFCs.",
 ["inputs"],"all named constants and conversions",
 "The tests touch a few constants.",
 ['src/method.rs','src/constants.rs','src/rfc5389/methods.rs','src/rfc5389/errors.rs','src/rfc5766/errors.rs'],[("constants","src/rfc*/methods.rs, src/rfc*/errors.rs, CODEPOINT of each attribute")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
