#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))

PB, SC, CM, SSH = "playback/", "schedule/", "comm/", "ssh/"

p("C01", "Players emit every received sample at its scheduled server time",
  "When a player receives its audio chunks in time (about 0.2 s, the device buffers, before they are due), every sample reaches the audio device at the server-clock instant given by its chunk's start time and its position in the chunk, to within one sample period: no sample is dropped, duplicated, reordered or shifted, left and right stay left and right. Whatever is not covered by scheduled audio (before the first chunk, silence markers, gaps next to them) is silence, and audio after any such silence starts at its own scheduled instant again, however the silence markers are spread over chunks. Samples of audio that follows silence and is already overdue on arrival are skipped, so that the rest is still on time.",
  ["inputs", "schedules", "histories"],
  "all chunk sizes, sample rates, start times, placements of silence markers, arrival times, bursts and clock offsets",
  "Existing tests feed the queue and the chunk reader with fixed data and never look at what is written to the device, when; a wrong alignment rule passes all of them.",
  [PB+"streamer.go", PB+"timed_sample_queue.go", PB+"playback.go", "cmd/music-sync-player/main.go"],
  [("alignment on the synced clock after silence", PB+"streamer.go: streamSync"), ("straight-through playback", PB+"streamer.go: streamDirect"), ("chunk reader", PB+"streamer.go: ReadChunks"), ("play loop", PB+"playback.go: playLoop")],
  [("sample queue", "samples with due times, in order", PB+"timed_sample_queue.go"), ("syncing", "whether output is being aligned", PB+"streamer.go")],
  ["bytes written to the audio device, with time of writing"])

p("C02", "Client clocks converge to the server clock",
  "After each complete series of time exchanges a client's synced clock equals the server's clock to within half of the largest difference between the two one-way delays seen in that series, for any offset between the clocks. The series' offset estimates all count equally, whatever their order, sign and size, and earlier series have no influence. Until a series is complete the previously adopted offset stays in force unchanged.",
  ["inputs", "schedules", "histories"],
  "all clock offsets, network delay sequences, numbers of cycles and repeated series",
  "The timing test uses one list of constant offsets; delays, asymmetry, repetition, big values and the exchange over a real connection are never exercised.",
  ["timing/timing.go", SC+"infoer.go", CM+"package_handler.go"],
  [("offset estimate and averaging", "timing/timing.go: UpdateOffset"), ("exchange loop", SC+"infoer.go: syncTime"), ("server's answer", CM+"package_handler.go: HandleTimeSyncRequest")],
  [("offset", "adopted offset", "timing/timing.go")], ["synced clock minus raw clock"])

p("C03", "The server schedules one gapless, numbered chunk stream ahead of time",
  "The audio chunks the server sends are numbered 0, 1, 2, ... without gap or repetition; chunk k carries exactly the configured number of samples for left and for right, states as its first sample index k times that size, and is due exactly k chunk durations after chunk 0. Every chunk is handed to clients one chunk duration after the previous one and at least (stream delay - chunk duration) before it is due; when the songs cannot be read that fast, as soon as they can, and the schedule is caught up with afterwards. The chunk announcements for displays agree with the chunks in start time, first sample index and size.",
  ["configurations", "histories"],
  "all sample rates, chunk sizes, delays, playlists, command histories and client sets",
  "streamMusic is not tested at all: it needs a running server and real time.",
  [SC+"server_state.go", PB+"playlist.go", "cmd/music-sync-server/main.go"],
  [("stream clock", SC+"server_state.go: streamMusic"), ("buffered reading of the playlist", PB+"playlist.go: Fill")],
  [("sampleIndexRead", "index of next sample to be sent", PB+"playlist.go")], ["chunk and chunk-info messages received by clients, with arrival times"])

p("C04", "The stream is the playlist: in order, complete, announced exactly",
  "While playing undisturbed, the stream consists of the playlist's songs in playlist order, starting over after the last one, each with every sample exactly once from first to last, with exactly the configured number of silence-marker samples between consecutive songs. Each song's start is announced to displays once, with its file name, its length in samples and the stream index of its first sample. Songs appended during playback are played in their turn, and editing the playlist never cuts the song that is playing.",
  ["inputs", "histories", "configurations"],
  "all playlists, song lengths (including shorter than any internal buffer or multiples of it), break sizes, chunk sizes and append times",
  "Tests push hand-made samples through single helper methods; the loop that strings songs together is not run.",
  [PB+"playlist.go", SC+"server_state.go"],
  [("song loop", PB+"playlist.go: StreamLoop"), ("pushing a song", PB+"playlist.go: pushStreamer"), ("announcement", SC+"server_state.go: createNewSongHandler")],
  [("position", "playlist cursor", PB+"playlist.go"), ("sampleIndexWrite", "index of next sample written", PB+"playlist.go")], ["chunk samples and song announcements"])

p("C05", "Pause and resume lose nothing and are announced exactly",
  "Pausing inserts silence markers into the stream and resuming continues the song with exactly the sample that would have come next: over any history of pauses and resumes no song sample is lost, repeated or reordered. A pause or resume takes effect within one second of buffered stream. Each change that takes effect during a song is announced to displays once, with the new state and the stream index of the first sample in that state.",
  ["histories", "schedules"],
  "all sequences and timings of pause and resume, including repeated ones and ones before, between and during songs",
  "One test toggles at a fixed block boundary; timing, histories, announcements against the stream and song ends are not covered.",
  [PB+"playlist.go", SC+"server_state.go"],
  [("play/pause switch in the push loop", PB+"playlist.go: pushStreamer"), ("toggle announcement", PB+"playlist.go: callPauseToggleHandler")],
  [("playing/playingLast", "requested and announced state", PB+"playlist.go")], ["chunk samples and pause announcements"])

p("C06", "A jump plays the chosen song once, from its beginning, and never hangs",
  "A jump cuts the current song within one second of buffered stream, and after one song break the entry at the requested position (counted modulo the playlist length, also for negative numbers) starts from its first sample and plays once in its turn, followed by its successors. Several jumps in quick succession lead to the last target. A jump never hangs or crashes the server, delays later commands, or cuts a song that starts after it - while playing, while paused, with an empty playlist, or repeated any number of times.",
  ["histories", "inputs", "schedules"],
  "all positions, playlist lengths, numbers and timings of jumps in all playback states",
  "The only test of jumping reads back the position after one call with its own reader; the effect on the stream is untested.",
  [PB+"playlist.go", SC+"server_state_commands.go"],
  [("jump request", PB+"playlist.go: SetPos"), ("cut", PB+"playlist.go: shouldBreakStreamerPushLoop"), ("choice of song", PB+"playlist.go: nextSong")],
  [("forceNext", "pending jumps", PB+"playlist.go"), ("position", "playlist cursor", PB+"playlist.go")], ["chunk samples, song announcements, command output"])

p("C07", "Playlist edits are exact list operations with clipped positions",
  "Adding, inserting and removing act on the playlist like on a list: an insertion puts the song at the given position and shifts the later ones, a removal takes out and returns exactly the song at the given position, and all other entries keep their order. Positions before the start or beyond the end are clipped to the nearest valid position, removing from an empty playlist does nothing, and no position crashes the server. Listings are snapshots that later edits do not change, and concurrent edits all take effect, each atomically.",
  ["inputs", "histories", "schedules"],
  "all sequences of edits with arbitrary positions, sequential and concurrent",
  "Tests use a fixed script of in-range and far out-of-range positions; the position equal to the length and concurrency are not tried.",
  [PB+"playlist.go", SC+"server_state_commands.go"],
  [("list edits", PB+"playlist.go: AddSong, InsertSong, RemoveSong"), ("snapshot", PB+"playlist.go: Songs")],
  [("songs", "the playlist", PB+"playlist.go")], ["Songs(), RemoveSong() results, playlist command"])

p("C08", "The sample queue is a bounded blocking FIFO",
  "Samples leave the player's sample queue in exactly the order they were added, each once, with the due time they were added with. Adding to a full queue waits until there is room and taking from (or looking into) an empty queue waits until there is a sample; neither waits any longer, and nobody stays asleep when what it waits for has happened. Looking at the first sample or asking for the length never changes the contents, never blocks behind a waiting writer, and the length is always between 0 and the capacity and exact when nothing is in progress.",
  ["schedules", "histories"],
  "all interleavings of adding, taking, peeking and length queries, all capacities",
  "Tests run one adder against one remover once; lost wake-ups and waiting readers need particular interleavings.",
  [PB+"timed_sample_queue.go"],
  [("ring buffer and condition variable", PB+"timed_sample_queue.go: Add, Remove, Peek, Len")],
  [("head, tail", "ring positions modulo twice the capacity", PB+"timed_sample_queue.go")], ["values returned by Remove, Peek and Len"])

p("C09", "Volume scaling and PCM output saturate and keep channels apart",
  "Every output sample is the stream sample times the current volume as 16-bit little-endian PCM, left before right, within one quantisation step, clamped to full scale: it never wraps around, so a larger stream sample never gives a smaller output sample at the same volume. This holds for every volume a server can send and every sample value. A volume message changes all samples written after it took effect and nothing else.",
  ["inputs", "histories"],
  "all sample values including full scale and beyond, all volumes, all sequences of volume changes",
  "The conversion test stops one step before positive full scale and never combines it with volumes above one.",
  [PB+"playback.go"],
  [("scaling and interleaving", PB+"playback.go: samplesToAudioBuf"), ("quantisation", PB+"playback.go: convertSampleToBytes")],
  [("volume", "current volume", PB+"playback.go")], ["bytes written to the audio device"])

p("C10", "Messages survive the wire exactly, under any fragmentation",
  "Every message of every type that is sent over a connection is received as an equal message, exactly once, and the messages of one connection are recognised in the order sent, no matter how the byte stream is split into or merged over reads and writes; numbers, texts, not-a-number samples and empty fields arrive bit for bit. What is on the wire is an 8 byte little-endian length, followed by an envelope with the type name and the zlib-compressed encoded message. A connection that ends in the middle of a message yields an error, never a message.",
  ["inputs", "schedules"],
  "all message contents and types, all fragmentations and truncations",
  "Tests send a few small messages through ideal pipes.",
  [CM+"package_util.go", CM+"conn_handler.go"],
  [("framing", CM+"package_util.go: toWire, sendWire"), ("reading", CM+"package_util.go: readWire, readBytes"), ("receive loop", CM+"conn_handler.go: handleConnection")],
  (), ["messages handed to handlers, bytes written"])

p("C11", "Malformed input harms only the connection it came from",
  "Whatever bytes a client sends - wrong lengths of any size, truncated or corrupted envelopes, broken compression, unknown types, undecodable or unexpected messages, garbage, or nothing - the server neither crashes nor stops serving: all other clients keep receiving the complete stream on time and new clients can connect. At worst the offending connection is closed. Well-formed messages handled before the malformed one arrived keep their effect.",
  ["inputs", "fault_sequences"],
  "all byte sequences and cut positions, several bad clients at once, at every stage of a session",
  "One test feeds one kind of bad message; sizes, compression errors and effects on others are not covered.",
  [CM+"package_util.go", CM+"conn_handler.go", CM+"package_handler.go"],
  [("validation while reading", CM+"package_util.go: readWire"), ("closing on error", CM+"conn_handler.go: handleConnection")],
  (), ["process survival, messages received by other clients"])

p("C12", "Broadcasts reach exactly the subscribed clients, once",
  "A message bound to a channel is delivered exactly once to each client that is subscribed to one of the message's channels when it is broadcast, however many of them and however often it subscribed, and to nobody else; a message bound to no channel goes to every connected client. Audio chunks go to audio clients, volume to audio and display clients, song, chunk and pause announcements to display clients. Connecting, subscribing and disconnecting of other clients never makes a client lose or repeat a message.",
  ["histories", "schedules"],
  "all histories of connects, subscriptions, disconnects and broadcasts, with any overlap",
  "Tests use two connections that never leave and one message.",
  [CM+"message_sender.go", CM+"package_util.go", CM+"package_handler.go"],
  [("broadcast", CM+"message_sender.go: SendMessage"), ("membership", CM+"message_sender.go: AddConn, DelConn, Subscribe"), ("channel table", CM+"package_util.go: channelOf")],
  [("connections, channels", "who is connected and subscribed", CM+"message_sender.go")], ["messages received by each client"])

p("C13", "A stalled, slow or dead client never delays the others",
  "When any number of clients stop reading, read slowly, or vanish at any point, every other client still receives every message of its channels at the time it would have received it otherwise. Clients can still connect, subscribe and disconnect, and administration commands still work at once. A dead client's place is given up and its failure affects no one else.",
  ["fault_sequences", "schedules"],
  "all sets and times of stalls, slow reads and disconnects during streaming, subscribing and joining",
  "No test has a client that does not read.",
  [CM+"message_sender.go", CM+"conn_handler.go", SC+"server_state.go"],
  [("independent sending per client", CM+"message_sender.go: SendMessage"), ("sending outside locks", CM+"message_sender.go, "+SC+"server_state.go: sendPauses")],
  (), ["arrival times at healthy clients, command latency"])

p("C14", "Concurrent senders never mix or tear frames on a connection",
  "Any number of messages sent to one connection at the same time - broadcasts, time answers, welcome messages, pongs - arrive each whole and exactly once; their bytes never interleave. The same holds for a client sending to the server.",
  ["schedules"],
  "all overlaps of concurrent sends of all sizes on shared connections",
  "Tests send one message at a time.",
  [CM+"package_util.go", CM+"message_sender.go", CM+"package_handler.go"],
  [("one write per frame", CM+"package_util.go: sendWire")],
  (), ["frames decoded by the receiver"])

p("C15", "A joining client gets the complete current state",
  "A client that subscribes as a player is sent the current volume; one that subscribes as a display is sent the current volume, the announcement of the newest song (if any song has started) and the pause history needed to know whether that song is playing and how long it has been paused. From its subscription on it also receives everything broadcast on its channel, so it misses no change however joining and changes coincide, and at quiescence it knows the same volume, song and playing state as clients connected all along.",
  ["histories", "schedules"],
  "all joining times relative to all histories of volume, pause, resume and song changes",
  "The handler is tested with a fixed state; joining at arbitrary points of a running server is not.",
  [SC+"server_state.go", CM+"package_handler.go"],
  [("welcome messages", SC+"server_state.go: createClientHandler"), ("subscribe before welcome", CM+"package_handler.go: HandleSubscribeChannelRequest")],
  [("volume, newestSong, pauses", "state sent to joiners", SC+"server_state.go")], ["messages received after subscribing"])

p("C16", "Pruning the pause history never changes what a joiner concludes",
  "However long the server has run and however many pauses, resumes and songs there were, in any order and overlap, the pause history it sends to a joining display yields, for every instant from the start of the newest song on, the same playing state and the same accumulated pause time in that song as the complete history. Entries that no longer matter are dropped eventually: resumed pauses from before the newest song do not pile up.",
  ["histories", "schedules"],
  "all histories of toggles and song starts, including concurrent ones",
  "Tests prune three fixed histories, one at a time.",
  [SC+"server_state.go"],
  [("pruning", SC+"server_state.go: removablePauses, removeOldPauses")],
  [("pauses", "retained toggles", SC+"server_state.go")], ["pause announcements sent to a joining display"])

p("C17", "Command lines parse as documented and completion text parses back",
  "A command line is split at unescaped spaces into a command and its non-empty parameters; backslash-space gives a space inside a word, two backslashes give one, and every other character - any Unicode text, quotes, lone backslashes - stands for itself. Writing a command and parameters back out as a line and parsing that gives the same command and parameters. Parsing any input terminates without crashing and concurrent sessions do not influence each other.",
  ["inputs", "schedules"],
  "all lines and all words of arbitrary Unicode text with spaces and backslashes anywhere",
  "A few ASCII lines are tested, with parameters compared as sorted lists.",
  [SSH+"parser/parser.go", SSH+"parser/Shell.g4"],
  [("grammar walk", SSH+"parser/parser.go: ParseCommand"), ("escaping", SSH+"parser/parser.go: Unparse")],
  (), ["ParseCommand and Unparse results"])

p("C18", "Tab completion only offers valid continuations, and all of them",
  "For any text and cursor position, each completion offered, inserted at the cursor, continues the word before the cursor to a command name or argument option that starts with what was typed, leaves the words before it unchanged, and ends with a space so that the next word can be typed; every option with the typed prefix is offered, and nothing when there is none. Songs and directories with spaces or non-ASCII names are offered so that running the completed line acts on exactly that song or directory. Completing never crashes the session.",
  ["inputs", "configurations"],
  "all lines, cursor positions, command sets, option sets and music directories",
  "Tests complete six short lines with the cursor at the end.",
  [SSH+"auto_completer.go", SSH+"command.go", SC+"server_state_commands.go"],
  [("completion", SSH+"auto_completer.go: Do"), ("song options", SC+"server_state_commands.go: queueCommand"), ("directory options", SSH+"command.go: lsCommand")],
  (), ["completions returned, terminal output on tab"])

p("C19", "Only configured users with the right credential get in",
  "An SSH login succeeds exactly when the user is in the users file and either gives that user's non-empty password exactly, or proves possession of that user's configured public key. Unknown users, empty or absent passwords, other users' credentials, prefixes or case variants, undecodable configured keys and users without credentials are all refused. A refused or broken login affects no other session.",
  ["inputs", "configurations"],
  "all users files, user names, passwords and keys",
  "The options are tested with one user; combinations over a real SSH handshake are not.",
  [SSH+"options.go", SSH+"ssh.go"],
  [("password check", SSH+"options.go: createPasswordAuthOption"), ("key check", SSH+"options.go: createPublicKeyAuthOption"), ("users file", SSH+"ssh.go: ReadUsersFile")],
  (), ["outcome of SSH logins"])

p("C20", "Control commands do exactly what they report, for every argument",
  "Each command run in a session has exactly the effect it reports: queue adds the songs matching its pattern, in the reported order and next to each other, at the position (clipped to the playlist) or, without one or with one that is no integer, at the end; remove reports the song it removed, if any; playlist shows the real playlist, playing state and current song; volume changes the volume of all clients and of later joiners to exactly the given number; pause, resume and jump act on playback. A command with missing or (except for queue's optional position) malformed arguments prints its usage and changes nothing, surplus arguments are ignored, an unknown command says so, and commands of several sessions take effect as whole steps. No input - any keys and terminal size included - crashes, blocks or suspends the server or affects other sessions. Help lists every command.",
  ["inputs", "histories"],
  "all command lines and sequences from one or several sessions",
  "Tests call single functions with fixed arguments on a fixed state.",
  [SC+"server_state_commands.go", SSH+"session_handler.go", SSH+"command.go"],
  [("commands", SC+"server_state_commands.go"), ("dispatch", SSH+"session_handler.go: handleLine")],
  [("playlist, volume", "state behind the commands", SC+"server_state.go")], ["terminal output, messages to clients, playlist"])

p("C21", "Listings and queue patterns name exactly the songs on disk",
  "Listing the music directory or a sub-directory gives exactly the regular .mp3 files below it, in lexical order, each once, as paths relative to the music directory; a queue pattern selects exactly the .mp3 files whose relative path matches it as a glob pattern, and each listed path without glob characters selects exactly itself. The form in which the music directory was given - relative, with ./, trailing slashes, parent references, or characters that are special in patterns - makes no difference. Missing directories and malformed patterns give an empty result or an error message, never a crash.",
  ["inputs", "configurations"],
  "all directory trees, names, patterns and spellings of the music directory",
  "Tests use one small tree with one spelling.",
  ["util/file_utils.go", SC+"server_state_commands.go", SSH+"command.go"],
  [("walk", "util/file_utils.go: ListAllFiles, ListAllSubDirs"), ("glob", "util/file_utils.go: ListGlobFiles"), ("prefix removal", "util/file_utils.go: removeDirPrefix")],
  (), ["returned paths, ls and queue output"])

p("C22", "The display tracks song, position and pauses for any message order",
  "At every instant the display shows the song whose first sample is the latest one before the sample now being played, the time since that song's start without the time it was paused, the song's length and the fraction played, and whether playback is paused - as determined by the chunk, song and pause announcements received so far. The order in which announcements arrive, how far ahead they arrive, and how often and when the display is refreshed make no difference, and long running times do not change the result.",
  ["histories", "schedules", "inputs"],
  "all histories of songs, pauses and chunks, all arrival orders and all refresh times",
  "A table of fixed states is tested one at a time; pruning between refreshes and arrival orders are not.",
  ["cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/infoer_package_handler.go"],
  [("position", "cmd/music-sync-infoer/state.go: currentSample, currentSong"), ("pause accounting", "cmd/music-sync-infoer/state.go: pausesInCurrentSong, removeOldPauses"), ("ordered insertion", "cmd/music-sync-infoer/infoer_package_handler.go")],
  [("Songs, Chunks, Pauses", "received announcements, sorted", "cmd/music-sync-infoer/state.go")], ["playback information computed for a time"])

p("C23", "The display draws song, time, progress, volume and lyrics correctly",
  "For any song data, position, volume and terminal size the display shows title (or else file name), artist and album, elapsed and total time as [h:]m:ss, volume percentage, playing state and a progress bar filled to the fraction played, inside its frame, as far as the texts fit side by side in the terminal. Each text is shown character by character without gaps, also for non-ASCII text. The lyrics area shows the lines that have begun, newest lowest, and of each line exactly the parts due until now (up to 100 ms early); drawing never crashes.",
  ["inputs", "configurations"],
  "all song metadata, lyrics, times, volumes and terminal sizes",
  "Tests check helper functions on fixed values and never draw.",
  ["cmd/music-sync-infoer/main.go", "cmd/music-sync-infoer/drawing.go"],
  [("layout", "cmd/music-sync-infoer/main.go: drawPlaybackInfo, drawLyrics"), ("lyrics", "cmd/music-sync-infoer/main.go: lyricsHistory"), ("primitives", "cmd/music-sync-infoer/drawing.go")],
  (), ["cells of the terminal screen"])

p("C24", "Lyrics and song metadata reach displays unchanged",
  "For every song that starts, displays receive the lyrics of its lyrics file - all lines and parts in order with their timestamps and texts - and the title, artist and album of its tags. A missing, unreadable or malformed lyrics file or tag gives empty lyrics or metadata, and neither that nor any name, text or character encoding in them keeps the announcement or the music from being sent.",
  ["inputs", "configurations"],
  "all lyrics files, tags, file names and encodings, well-formed or not",
  "One sample song with one lyrics file is tested.",
  ["metadata/lyrics_provider.go", "metadata/metadata_provider.go", SC+"server_state.go"],
  [("lyrics", "metadata/lyrics_provider.go"), ("tags", "metadata/metadata_provider.go"), ("conversion", SC+"server_state.go: toWireLyrics")],
  (), ["song announcements received by displays"])

p("C25", "Logging writes exactly the enabled messages, to the right place",
  "A log message is written exactly when its level is at least the cutoff of its logger - the logger's own if one is set, else the default - as one line that contains level, logger name, date and the message text unchanged. Warnings and worse go to the error stream, everything else to the output stream. The command line options for the default level and for single loggers set exactly these cutoffs, with level names in any case, and unknown names switch logging off.",
  ["inputs", "configurations"],
  "all levels, cutoffs, logger names, messages and option values",
  "Tests set cutoffs directly; the options' effect and arbitrary messages are not tested.",
  ["logging/logger.go", "logging/level.go", "cmd/flags.go"],
  [("filter and format", "logging/logger.go"), ("options", "cmd/flags.go: HandleLoggingFlags")],
  [("cutoffs", "default and per logger", "logging/")], ["text written to the output and error writers"])

p("C26", "Unplayable songs are skipped without disturbing the stream",
  "A playlist entry that does not exist, cannot be read or cannot be decoded is skipped and the next playable entry follows in order, complete; a song that breaks off in the middle is played as far as it goes. While no entry is playable, or the playlist is empty, the chunk stream goes on punctually with silence markers, commands and clients are served as usual, and a playable song added later is played. No resource is used up by skipping or playing songs, however long the server runs.",
  ["inputs", "fault_sequences", "histories"],
  "all mixtures of good, missing, unreadable, undecodable and truncated songs, changing over time",
  "Only opening one missing and one bad file is tested, not the effect on the stream.",
  [PB+"playlist.go", PB+"playback.go"],
  [("skipping", PB+"playlist.go: StreamLoop"), ("opening", PB+"playback.go: getStreamer")],
  (), ["chunk samples and times, song announcements"])

p("C27", "A broadcast reports every client it could not reach",
  "A broadcast tries every intended client and returns an error exactly when at least one delivery failed; the error then contains every single failure once, also when many fail at the same moment. Collected errors are complete when read, independent of later additions, and their text names each of them.",
  ["schedules", "fault_sequences"],
  "all sets of failing clients and concurrent additions",
  "Tests add errors sequentially and never combine them with failing connections.",
  ["util/collector.go", "util/multi_error.go", CM+"message_sender.go"],
  [("collection", "util/collector.go"), ("use in broadcast", CM+"message_sender.go: SendMessage")],
  (), ["returned errors"])

p("C28", "End to end, every player plays the same music at the same time",
  "From the audio files in the music directory through administration commands, server and network to the audio device: at every instant of server time after it has joined, synchronised its clock and received the audio due then (about 0.2 s ahead), each player outputs exactly the sample of the queued song that the stream schedule puts at that instant (or silence in breaks and pauses), independent of when it joined, its clock and network delays (within what the difference between the delays of the two directions lets it know of the server's clock). Two players therefore always play the same sample at the same time, and the display names the song that is being heard.",
  ["histories", "schedules", "configurations"],
  "all playlists, command histories, joining times, clock offsets and network delays shorter than the stream's lead",
  "No test connects a server and a client.",
  [SC+"server.go", SC+"player.go", SC+"server_state.go", PB+"streamer.go", "timing/timing.go", "cmd/music-sync-player/main.go"],
  [("schedule", SC+"server_state.go: streamMusic"), ("alignment", PB+"streamer.go"), ("clock", "timing/timing.go")],
  (), ["bytes written to the audio devices"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
