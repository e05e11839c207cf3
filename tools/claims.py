# what is under contract per property; read by mkmanifest.py
LIM = "Assumed sizes (not checked by the code): dictionary plus target at most INT_MAX bytes, an instruction stream at most INT_MAX-16 bytes, one input chunk plus left-over bytes at most INT_MAX; memory allocation succeeds. "
C["C01"] = ("Under contract: the whole encoder (engine: instructions tile the target and copies denote equal bytes; writer; address encoder; varints; streaming and simple entry points, constructors), each against "
            "the byte-level meaning the decoder contracts of C03 use. The composition of both sides (what Output lays out is what the decoder's window contract reads) is argued over the two contracts, not one machine-checked theorem; the stand-in runs the round trip. " + LIM)
C["C02"] = ("Under contract: every function the decoder runs on delta bytes (varints, chunk, header parser, code table reader, address cache, window, delta file header, custom code table, DecodeChunk, simple decoder): memory safety, "
            "no signed overflow, no uninitialised read, no reachable abort, termination. " + LIM)
C["C03"] = "Under contract: address decoding, source segments, instruction reading, ADD/RUN/COPY (byte-exact effect), window body, custom code tables, delta file header, DecodeChunk, the simple decoder; the default table is checked as static data. " + LIM
C["C04"] = ("Under contract: each parsing function leaves its state untouched on END_OF_DATA, the decoder's left-over bytes are exactly the unparsed ones, output only grows; that a resumed parse equals an uninterrupted one is argued over "
            "these contracts, not one machine-checked theorem. Unchecked assumption: a DecodeChunk call that decodes a byte consumes all bytes left over from earlier calls. " + LIM)
C["C05"] = "Under contract: both limit setters, the limit test, the window header (refused exactly when a limit is exceeded, before any output), the window loop and DecodeChunk."
C["C06"] = "Under contract: StartDecoding, FinishDecoding (succeeds exactly when complete), Reset of decoder, window, header and code-table state, what a failed window leaves behind, DecodeChunk's refusal after an error, the simple decoder."
C["C07"] = "Under contract: adler32 (the value is the Adler-32 of the bytes, for all lengths), the encoder entry points and Output (which bytes are summed, where the value goes), checksum parsing, and the window body (accepted only if equal). " + LIM
C["C08"] = "The whole property is proved: Parse, EncodeInternal, Encode, Length, AppendToString, AppendToOutputString for both widths, and the round-trip lemma over those contracts."
C["C09"] = "UpdateCache, EncodeAddress, DecodeAddress and Init are proved for all cache sizes and histories, with the agreement lemma; DecodeCopy is the caller."
C["C10"] = "Under contract: every header-parsing function, file header, window header, section lengths, the end-of-window comparison of declared and actual lengths, DecodeChunk. " + LIM
C["C11"] = "Under contract: Validate, ValidateOpcode, the default table (static data against RFC 3284 section 5.6), the code table reader, custom table reading and installation."
C["C12"] = "Under contract: the code table writer (EncodeInstruction, Add/Run/Copy, Init, Output), the whole instruction map (construction for any valid table, both lookups), the reader (GetNext, UnGet) and the default table. The induction over a whole instruction sequence is argued over those contracts."
C["C13"] = "The whole property is proved: match extension, block comparison, table size, AddBlock and chain invariants, search, FindBestMatch, Init. " + LIM
C["C14"] = "Under contract: header bytes, Output (every length field exact, sections in order), varints, address encoding, instruction emission, engine, entry points and constructors. " + LIM
C["C15"] = "Under contract: every method of the JSON writer (escaping, element separators, offsets, brackets, ASCII test), the streaming and simple encoder entry points and constructors, the engine (instructions tile the target; copies never straddle the dictionary's end); lemmas: each escaped byte reads back, offsets designate the bytes meant. " + LIM
C["C16"] = "Under contract: encoder entry points (a function of options, dictionary and chunk only), writer Init/Output (what the next window starts from), engine and block hash frame conditions (the dictionary, its hash and the target are read-only), static variables arbitrary at entry and never written."
C["C17"] = "The whole property is proved: Init, Hash, UpdateHash."
C["C18"] = ("Under contract: main and every method of VCDiffFileBasedCoder in src/vcdiff_main.cc, over a ghost world of the three files: on success every input byte was fed to the coder in order, every byte it produced was written in order and "
            "the stream was flushed or closed without error, no I/O or coder error was passed over, loops end. Trusted summaries: stdio (ISO C: fread/fwrite/ferror/feof/fclose; ftell succeeds where fseek does), gflags, std::vector<char>, "
            "std::string, streams; the encoder's and decoder's entry points (append to the output string, return their verdict), which C01-C16 verify. Assumed: the files do not change meanwhile and are distinct; pointers kept across a vector's resize are not tracked. "
            "The stand-in runs the tool with injected read, write and close failures.")
C["C19"] = "Proved, as frame conditions on every encoder-side function: what a call on one encoder writes lies in that encoder, its output and objects it allocates; the shared dictionary (text, hash tables) and static variables are never written, except in the thread-safe initialisation of a local static. The step from there to all interleavings (threads that share only memory nobody writes do not influence one another) is a meta-argument, not machine-checked. The stand-in runs threads under ThreadSanitizer."
