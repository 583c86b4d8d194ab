#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
H='validators-derive/src/validator_handlers/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ['parse_* / validate_* results and the fields of the parsed value'],hook_needed=None))
    P.append(d)
def hf(*n): return [H+x+'/mod.rs' for x in n]
T="Existing tests call each validator with a handful of hand-picked literals per option; "
p('C01','Base32/Base64 text is accepted exactly when it follows its grammar',
 "A base32, base64 or base64-url validator accepts a text exactly when it is non-empty, uses only its alphabet, has a length that some byte sequence encodes to, and its `=` padding is complete (Must), absent (Disallow) or either (Allow). The accepted text is stored unchanged, and the text and the byte-slice entry points decide alike. When only the padding option is violated, the error names the padding.",
 ['inputs','configurations'],'every byte string, for the three alphabets and the three padding options',
 T+'the length classes modulo the block size, misplaced padding and non-alphabet bytes (including 0x80..0xFF) are not covered.',
 hf('base32','base64','base64_url'),[('hand-written alphabet/padding scanner',H+'base64/mod.rs'),('padding option',' validators-derive/src/common/attributes/base_xx_attribute.rs'.strip())])
p('C02','Decoding validators return exactly the encoded bytes and accept nothing else',
 "A decoding base32, base64 or base64-url validator returns exactly the bytes a canonical encoder would have encoded to the text, under every padding option, and rejects every text that is not such an encoding. Validating without keeping the value accepts exactly the inputs that parsing accepts. The reported collection length is the number of decoded bytes.",
 ['inputs','configurations'],'every byte sequence (through encode) and every text (through decode), for three alphabets and three padding options',
 T+'decoding is checked on one sample per option, non-canonical trailing bits and validate/parse agreement not at all.',
 hf('base32_decoded','base64_decoded','base64_url_decoded'),[('data_encoding codec choice by padding option',H+'base64_decoded/mod.rs'),('validate_* runs the decoder',H+'base64_decoded/mod.rs')])
p('C03','Boolean validator accepts exactly its documented spellings',
 "A boolean is accepted exactly from the words true/t/yes/y/on/1 and false/f/no/n/off/0 in any ASCII letter case, from the single characters t, y, 1, f, n, 0 in either case, from the integers 0 and 1 of every width and signedness, and from a bool. The value is the meaning of the word, and everything else is rejected.",
 ['inputs'],'every string, char, integer of every width and bool',
 T+'near-miss words, look-alike Unicode letters (K, ſ), other characters and large integers are unbounded.',
 hf('boolean'),[('case-insensitive word table',H+'boolean/mod.rs')])
p('C04','Bit and byte sizes parse to the exact amount and respect their range',
 "A bit or byte validator accepts a text exactly when it is a size expression (case handling as configured) whose exact amount lies inside the configured inclusive or exclusive range, or an integer amount inside that range. The stored value is that exact amount. An amount below the minimum is reported as too small and one above the maximum as too large.",
 ['inputs','configurations'],'every size text and every unsigned integer up to 128 bits, for ranges with and without either bound, inclusive and exclusive, case-sensitive and not',
 T+'the amounts next to a bound and amounts near the capacity of the type are not sampled, nor are bounds combined with case handling.',
 hf('bit','byte')+['validators-derive/src/common/range.rs'],[('generated range comparisons',H+'byte/mod.rs'),('ignore_case option',H+'byte/byte_attribute.rs')])
p('C05','Integers are accepted exactly when they fit the type and the range',
 "A signed or unsigned integer validator accepts a decimal text or an integer of any width exactly when the value fits the field type and satisfies the configured range (unlimited, inside or outside, either bound optional, inclusive or exclusive). The stored value equals the input value. Values under or over the permitted interval are reported as too small or too large, values in a forbidden interval as forbidden.",
 ['inputs','configurations'],'every text and every integer of 8 to 128 bits and pointer size, for all field types and range shapes',
 T+'type-boundary values, wide inputs into narrow types and inclusive/exclusive edges of each range shape are not crossed.',
 hf('signed_integer','unsigned_integer')+['validators-derive/src/common/range.rs','validators-derive/src/common/range_option.rs'],[('generated range comparisons and narrowing',H+'signed_integer/mod.rs'),('range attribute parsing','validators-derive/src/common/range.rs')])
p('C06','Floating-point numbers honour the range and the NaN policy',
 "A number validator accepts a text exactly when it is a floating-point literal whose value (in the field's precision) satisfies the configured range and NaN policy: NaN must, may or must not appear, and an ordinary number is accepted only if it satisfies the range and NaN is not required. Direct f32 and f64 inputs follow the same rule. The stored value is bit-for-bit the parsed one (any NaN for NaN).",
 ['inputs','configurations'],'every text, f32 and f64 (subnormals, infinities, signed zeros, NaN, values adjacent to bounds) for all range shapes, NaN options and both field types',
 T+'infinities, negative zero, values one ULP from a bound and f64-to-f32 rounding across a bound are absent.',
 hf('number')+['validators-derive/src/common/range.rs'],[('generated range and NaN handling',H+'number/mod.rs')])
p('C07','Collection lengths are bounded exactly',
 "A length validator accepts a collection exactly when its number of elements is within the configured minimum and maximum, both inclusive, and stores the collection unchanged; a shorter one is reported as too short and a longer one as too long. This holds for every supported collection kind and for validators that are themselves collections.",
 ['inputs','configurations'],'every collection (vectors, sets, maps, heaps, JSON maps, decoded bytes) and every min/max combination including min = max and 0',
 T+'only a vector around one range is tried; the other collection kinds and degenerate bounds are not.',
 hf('length')+['validators/src/traits/collection_length.rs','validators-derive/src/common/length.rs'],[('generated comparisons',H+'length/mod.rs'),('CollectionLength impls','validators/src/traits/collection_length.rs')])
p('C08','A line contains no line break or other control character and obeys its length',
 "A line validator accepts a text exactly when it contains no ASCII control character other than tab (no U+0000-U+0008, U+000A-U+001F, U+007F) and its byte or character count satisfies the configured min and max and its count without surrounding whitespace satisfies the configured trimmed minimum. The text is stored unchanged. A text whose only fault is its length is reported as too short or too long accordingly.",
 ['inputs','configurations'],'every string, for all presence combinations of min, trimmed_min and max, in bytes and in characters',
 T+'multi-byte characters at a limit, Unicode whitespace and control characters inside the trimmed margins are not reached.',
 hf('line')+['validators-derive/src/common/attributes/utf8_attribute.rs'],[('single-pass scanner per option combination',H+'line/mod.rs')])
p('C09','A text contains no control character but tab and line breaks, within its length',
 "A text validator accepts a text exactly when it contains no ASCII control character other than tab, line feed, vertical tab and carriage return (no U+0000-U+0008, U+000C, U+000E-U+001F, U+007F) and its byte or character count satisfies the configured min and max and its count without surrounding whitespace satisfies the configured trimmed minimum. The text is stored unchanged. A text whose only fault is its length is reported as too short or too long accordingly.",
 ['inputs','configurations'],'every string, for all presence combinations of min, trimmed_min and max, in bytes and in characters',
 T+'multi-byte characters at a limit, Unicode whitespace and control characters inside the trimmed margins are not reached.',
 hf('text')+['validators-derive/src/common/attributes/utf8_attribute.rs'],[('single-pass scanner per option combination',H+'text/mod.rs')])
p('C10','MAC addresses parse to their 48-bit value and print back canonically',
 "A MAC-address validator accepts exactly twelve hexadecimal digits of the configured letter case, with the configured separator between each pair required, optional or forbidden, and returns the 48-bit value they spell. Printing a value yields a text in the configured case and separator that the same validator parses back to the same value. Any other input is rejected with an error, never a panic.",
 ['inputs','configurations'],'every string and every 48-bit value, for case Any/Upper/Lower and separator Must/Allow/Disallow with arbitrary separator bytes',
 T+'misplaced, doubled and missing separators, non-ASCII text of the right length and mixed case are not enumerated.',
 hf('mac_address')+['validators-derive/src/common/case_option.rs','validators-derive/src/common/separator_option.rs'],[('position-driven scanner',H+'mac_address/mod.rs'),('to_mac_address_string',H+'mac_address/mod.rs')])
p('C11','UUIDs parse to their 128-bit value and print back canonically',
 "A UUID validator accepts exactly thirty-two hexadecimal digits of the configured letter case, with the configured separator at the 8-4-4-4-12 boundaries required, optional or forbidden, and returns the 128-bit value they spell. Printing a value yields a text in the configured case and separator that the same validator parses back to the same value. Any other input is rejected with an error, never a panic.",
 ['inputs','configurations'],'every string and every 128-bit value, for case Any/Upper/Lower and separator Must/Allow/Disallow with arbitrary separator bytes',
 T+'misplaced, doubled and missing separators, non-ASCII text of the right length and mixed case are not enumerated.',
 hf('uuid')+['validators-derive/src/common/case_option.rs','validators-derive/src/common/separator_option.rs'],[('position-driven scanner',H+'uuid/mod.rs'),('to_uuid_string',H+'uuid/mod.rs')])
p('C12','IP validators parse the address and port exactly under every option',
 "An ip, ipv4 or ipv6 validator accepts exactly a standard textual address (IPv6 optionally in brackets, in which case a port may follow) with an optional decimal port 0-65535, subject to the configured local-address and port options, and returns exactly that address and port. When a single option is violated the error names that option. Anything else, including signs, spaces and trailing text, is rejected.",
 ['inputs','configurations'],'every string, for each validator and all 9 combinations of the local and port options',
 T+'port edge values, bracket misuse and non-default option combinations with ports are barely sampled.',
 hf('ip','ipv4','ipv6')+['validators/src/functions/ip.rs','validators/src/functions/ipv4.rs','validators/src/functions/ipv6.rs'],[('address/port splitting',H+'ip/mod.rs'),('local/port option handling',H+'ipv6/mod.rs')])
p('C13','What counts as local is one fixed, consistent classification',
 "An IPv4 address is local exactly when it is private, loopback, link-local, broadcast, documentation or unspecified; an IPv6 address exactly when it is unspecified, loopback, multicast of any scope but global, link-local, site-local, unique local, documentation, or the mapped or compatible form of a local IPv4 address; a name exactly when it is localhost, in any letter case and with or without a final dot. Every validator with a local option (ip, ipv4, ipv6, host, domain, email, http_url, http_ftp_url) gives the same verdict for the same address or name. Requiring local and forbidding local always disagree on it.",
 ['inputs','configurations'],'every IPv4 and IPv6 address and every host name, across the eight validators that have a local option',
 'Tests use 127.0.0.1 and localhost only; range edges of the reserved blocks and agreement between validators are untested.',
 ['validators/src/functions/ipv4.rs','validators/src/functions/ipv6.rs','validators/src/functions/ip.rs','validators/src/functions/domain.rs'],[('is_local_ipv4 / is_local_ipv6 / is_local_domain','validators/src/functions')])
p('C14','Host validator accepts exactly IPs and IDNA-valid names under its options',
 "A host validator accepts exactly an IP address or an internationalised domain name valid under IDNA (no trailing dot), with an optional port, subject to the configured local, port and at-least-two-labels options. It returns the address or the ASCII-normalised name, the exact port, and the true local flag. When a single option is violated the error names that option.",
 ['inputs','configurations'],'every string, for all 27 combinations of local, port and at_least_two_labels',
 T+'internationalised names, numeric-looking names, brackets and the interplay of three options are not crossed.',
 hf('host')+['validators/src/models/host.rs','validators/src/functions/mod.rs'],[('IP-or-domain parser with option branches',H+'host/mod.rs')])
p('C15','Domain validator accepts exactly IDNA-valid names under its options',
 "A domain validator accepts exactly an internationalised domain name valid under IDNA, optionally with one trailing dot, or an IPv4 address, with an optional port, subject to the configured ipv4, local, port and at-least-two-labels options. It returns the ASCII-normalised name (trailing dot kept), the exact port and the true ipv4 and local flags, and tells correctly whether the name is fully qualified and what it is without the final dot. When a single option is violated the error names that option.",
 ['inputs','configurations'],'every string, for all 81 combinations of ipv4, local, port and at_least_two_labels',
 T+'internationalised names that normalise to IPv4 or localhost, trailing dots with ports and most of the 81 combinations are untested.',
 hf('domain')+['validators/src/functions/domain.rs','validators/src/functions/mod.rs'],[('parser with option branches',H+'domain/mod.rs'),('QualifyDomain',H+'domain/mod.rs')])
p('C16','A parsed authority prints to a text that parses back to the same value',
 "For every value parsed by an ip, ipv4, ipv6, host or domain validator, its URI-authority text (IPv6 in brackets, final dot dropped, port after a colon when there is one) is the canonical text of that address or name and port. Parsing that text with the same validator gives an equal value (up to the dropped final dot).",
 ['inputs','configurations'],'every accepted input of the five validators under every option combination',
 'No existing test re-parses the printed authority; only a few fixed outputs are compared.',
 hf('ip','ipv4','ipv6','host','domain')+['validators/src/models/host.rs'],[('to_uri_authority_string',H+'*/mod.rs')])
p('C17','Email validator accepts exactly the documented email grammar',
 "An email is accepted exactly when it has the form local@domain with an unquoted dot-atom or quoted local part, at most 64 bytes before the @ and 255 after it and 320 in all, a domain that is an IDNA-valid name or a bracketed IP literal, and parenthesised comments only around the two parts, subject to the configured comment, ip, local, at-least-two-labels and non-ASCII options. When a single option is violated the error names that option; otherwise malformed input is rejected with an error and never a panic.",
 ['inputs','configurations'],'every string, for all combinations of comment, ip, local, at_least_two_labels and non_ascii',
 T+'the hand-written scanner has states (escapes, comments at four positions, length limits in bytes with non-ASCII) that no sample combines.',
 hf('email'),[('hand-written byte scanner with comment/quote states',H+'email/mod.rs'),('domain handling shared through functions','validators/src/functions/mod.rs')])
p('C18','A parsed email keeps its parts exactly and prints back to an equal email',
 "For every accepted email the local part, the domain or address, the four comments, the quoting flag and the local flag are exactly those written in the input (domain names ASCII-normalised). Printing the email yields a text that the same validator accepts and parses to the same parts.",
 ['inputs','configurations'],'every accepted email under every option combination',
 'Existing tests assert acceptance of a few addresses and one or two printed forms; they do not compare all parts or re-parse.',
 hf('email')+['validators/src/models/host.rs'],[('part slicing and to_email_string',H+'email/mod.rs')])
p('C19','URL validators agree with the URL standard parser and report the scheme',
 "A url validator accepts exactly what the WHATWG URL parser accepts and keeps the URL; an http or http/ftp URL validator additionally requires an http, https (or ftp) scheme written at the very start in any case and applies the local option to the URL's host. The returned URL equals the standard parser's result and the https flag or protocol is the actual scheme. When only the scheme or only the local option is violated, the error says so.",
 ['inputs','configurations'],'every string, for all local options of the three validators',
 T+'unusual scheme spellings, missing slashes, userinfo, IPv6 and local hosts are not crossed with the option.',
 hf('url','http_url','http_ftp_url')+['validators/src/models/protocol.rs'],[('scheme prefix test and url crate',H+'http_url/mod.rs')])
p('C20','JSON validators accept exactly the JSON of their type and print it back',
 "A json validator over a type accepts a text exactly when it is one JSON document of that type, accepts a JSON value, number or bool exactly when the type can be read from it, and returns the same value the JSON library would. (Text carrying a fraction is subject to the JSON library's own last-digit accuracy, and a float beyond the field type's range reads as infinity as it does there.) Minified and beautified output both parse back to the same value, and the minified text carries no insignificant whitespace.",
 ['inputs'],'every text, JSON value, integer, float and bool, for field types value, string, number, integer, bool, sequences and maps',
 T+'trailing garbage, wide integers, nested values and round-trips are not covered.',
 hf('json'),[('serde_json delegation per entry point',H+'json/mod.rs')])
p('C21','Phone validator accepts exactly valid numbers of the configured countries',
 "A phone validator without countries accepts exactly valid international numbers; with one country exactly the numbers valid for that country, written nationally or internationally; with several countries it returns exactly those configured countries for which the text is a valid number. The returned number equals the phone-number library's reading of the text.",
 ['inputs','configurations'],'every string, for no country, one country and several countries',
 T+'only a few TW/US numbers appear; numbers sharing a calling code, extensions and malformed prefixes do not.',
 hf('phone'),[('phonenumber delegation and country filter',H+'phone/mod.rs')])
p('C22','Regex and semver validators delegate faithfully',
 "A regex validator accepts a text exactly when the configured pattern matches it, whether the pattern is given as a literal or as an expression, and stores the text unchanged. A semver or semver-requirement validator accepts exactly what the SemVer grammar accepts and returns the corresponding version or requirement, which prints back to an equal one.",
 ['inputs','configurations'],'every string, for several patterns and both pattern forms',
 T+'a handful of literals per validator cannot show agreement with the reference parsers.',
 hf('regex','semver','semver_req'),[('delegation',H+'regex/mod.rs')])
p('C23','All entry points of a validator agree and none ever panics',
 "For every validator and every input, the owned, borrowed and validate-only entry points give the same verdict and the same value or error (only the decoding base validators may name either of two problems), conversions through a narrower or wider integer or float entry point give the same verdict as the value itself, and malformed or hostile input (arbitrary Unicode, huge, deeply nested, arbitrary bytes) is answered with an error. No input makes a validator panic, abort or overflow.",
 ['inputs','configurations'],'every input to every public parse and validate function of all validators and configurations',
 'Tests call mostly one entry point with well-formed literals; validate-only functions and hostile inputs are hardly exercised.',
 [H+'*/mod.rs','validators/src/traits/mod.rs'],[('separately generated bodies for parse_string/parse_str/validate_str',H+'*/mod.rs'),('default width-forwarding methods','validators/src/traits')])
p('C24','Serde round-trips: deserialising validates, and serialised values read back',
 "Deserialising a validator type accepts exactly the data that direct validation of the same value accepts and yields the same value, in human-readable and in self-describing binary formats, for owned and borrowed strings, bytes, sequences and integers of either signedness. Serialising a validated value produces its canonical text or number, and deserialising that gives an equal value (decoded-base, JSON and phone validators, whose serialised form is intentionally a different shape, excepted).",
 ['inputs','configurations'],'every accepted and rejected value of every validator with serde enabled',
 'No existing test serialises or deserialises any validator.',
 [H+'*/mod.rs','validators-derive/src/common/serde_options.rs'],[('generated Serialize/Deserialize',H+'*/mod.rs')])
p('C25','The capturing Result never loses a validation error or a value',
 "Wrapping a validator in the capturing result type makes every input of the right data shape succeed, holding exactly the value or the exact validation error that direct validation gives, through conversion, text parsing and deserialisation. It converts to and from the standard result without change and dereferences to it.",
 ['inputs','configurations'],'every input of every validator through every conversion and deserialisation of the wrapper',
 'No existing test uses the wrapper at all.',
 ['validators/src/result/mod.rs','validators/src/result/built_in_traits.rs','validators/src/result/serde_traits.rs'],[('From/FromStr/Deserialize impls','validators/src/result')])
p('C26','Web framework extraction accepts exactly what direct validation accepts',
 "Extracting a validator from a Rocket path segment, query string or form field, or an Axum path, query, form or JSON body succeeds exactly when direct validation of the decoded text succeeds, with the same value; otherwise the request is rejected, and an Axum handler returning the validation error answers 400 with the error's message. (A JSON validator deserialised by Axum reads the text as a JSON string, not as a document.) The capturing result type in such a field holds the validation error instead of failing the request.",
 ['inputs','configurations'],'every request input to every string-based validator under both frameworks',
 'No existing test exercises Rocket or Axum.',
 ['validators/src/errors/axum_traits.rs','validators/src/result/rocket_traits.rs','validators-derive/src/common/rocket.rs'],[('generated FromParam/FromFormField','validators-derive/src/common/rocket.rs'),('IntoResponse for errors','validators/src/errors/axum_traits.rs')])
p('C27','Derive attributes: valid ones compile and mean what they say, bad ones fail',
 "Every attribute built from documented parameters compiles, and omitting a parameter behaves exactly like writing its documented default. Contradictory, duplicate, unknown or out-of-order parameters (minimum above maximum, bounds the type cannot hold, mutually exclusive requirements without explicit conflict permission, wrong field shapes) are rejected at compile time instead of producing a validator that silently misbehaves.",
 ['programs','configurations'],'every attribute over the documented parameter grammar, valid or mutated',
 'Tests contain only a fixed list of valid attributes and no compile-fail cases.',
 ['validators-derive/src/lib.rs','validators-derive/src/common/range.rs','validators-derive/src/common/length.rs','validators-derive/src/common/attributes/mod.rs'],[('attribute parsers and Range::check / Length::check','validators-derive/src/common')],['compiler exit status and behaviour of the compiled validator'])
p('C28','Tri-state options partition the inputs: Allow is Must or Disallow',
 "For every tri-state option, with the other options fixed, an input is accepted under Allow exactly when it is accepted under Must or under Disallow, never under both, and with the same value (an at-least-two-labels option does not classify local names, and a padding option does not classify text that needs no padding: those may pass under both; MAC and UUID texts with some of their separators pass under Allow only). Tightening any option never makes a rejected input accepted.",
 ['inputs','configurations'],'every input and every pair of configurations differing in one option, for all validators with tri-state options',
 'Existing tests look at one configuration at a time; the relation between configurations is never checked.',
 [H+'ip/mod.rs',H+'host/mod.rs',H+'domain/mod.rs',H+'email/mod.rs','validators-derive/src/common/tri_allow.rs'],[('one generated branch per option value',H+'domain/mod.rs')])
p('C29','Every feature combination builds and validates alike',
 "Any subset of the crate's features, with or without the standard library where the chosen validators permit, compiles a program that uses exactly the enabled validators. The validators it contains behave the same as in the full build.",
 ['configurations'],'every subset of the cargo features with a program using the enabled validators',
 'The existing test run builds all features at once only.',
 ['validators/Cargo.toml','validators-derive/Cargo.toml','validators/src/lib.rs','validators/src/result/built_in_traits.rs'],[('cfg(feature) gates','validators/src')],['cargo build status and output of the built program'])
p('C30','Validation errors tell the truth about the input',
 "An error that documents a guarantee about the rejected input (no port was found, the domain part is local, an IP, or has a single label, a separator or padding is missing or present, the scheme is not a permitted one) is only returned for inputs where that guarantee holds, valid or not. An error that comes from an underlying parser (url, semver, phonenumber, byte-unit, the standard number parsers) is carried unchanged. Every kind of error has its own readable message that says the direction in which the input is wrong, and a failed deserialisation passes that message on. All errors are standard errors that can be boxed and sent to other threads.",
 ['inputs','configurations'],'every rejected input of every validator in every option configuration',
 'Existing tests hardly look at which error comes back, and never at its message.',
 ['validators/src/errors/mod.rs','validators/src/errors/host.rs','validators/src/errors/email.rs','validators/src/errors/phone.rs',H+'host/mod.rs',H+'email/mod.rs'],[('documented error variants and Display','validators/src/errors')])
p('C31','Validation needs time and memory proportional to its input',
 "Validating any text, however long and however repetitive or malformed, takes time and memory in proportion to its length at most; no input makes a validator take quadratic or worse time, so that hostile requests cannot stall a service by their content.",
 ['inputs','configurations'],'every text of any length for every validator in every option configuration',
 'Existing tests use short texts and measure nothing.',
 [H+'email/mod.rs',H+'text/mod.rs',H+'line/mod.rs',H+'domain/mod.rs',H+'base64/mod.rs','validators/src/functions/domain.rs'],[('generated scanning loops',H+'*/mod.rs')],['processor time and heap use of a validation'])
p('C32','Validation depends on nothing but its input',
 "Validating the same input with the same validator always gives the same value, error and message: whatever was validated before, by whichever validator, in whatever order, how often, and on however many threads at the same time.",
 ['histories','schedules'],'every history of validations and every interleaving across threads',
 'Existing tests validate a few inputs once each, in one order.',
 [H+'*/mod.rs','validators/src/functions/mod.rs','validators/src/result/mod.rs'],[('generated v_parse functions (no state)',H+'*/mod.rs')])
p('C33','The public helper functions, models and length trait mean what they say',
 "The public functions decide by the whole text they get: a name is local exactly when it is localhost in any letter case with or without one final dot, it has at least two labels exactly when a dot remains once one final dot is set aside, and a text is an IPv4 address with an optional final dot exactly when it is one without it. A host made from an address or name is of that kind, prints as that address or name (and parses back to an equal host), and equality, hash and order of hosts are consistent with each other. The length of every supported collection is its number of elements, and it is empty exactly when that is zero.",
 ['inputs'],'every text, every pair of hosts, every collection of every supported kind',
 'Existing tests never call these items directly.',
 ['validators/src/functions/domain.rs','validators/src/functions/ipv4.rs','validators/src/models/host.rs','validators/src/traits/collection_length.rs'],[('is_local_domain, is_at_least_two_labels_domain','validators/src/functions/domain.rs'),('Host','validators/src/models/host.rs'),('CollectionLength','validators/src/traits/collection_length.rs')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
