#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/"
D = "src/modules/dasher/"

prop("P01", "Frame queues are bounded FIFOs that never overwrite unread frames",
     "Between a producer and its consumers, a frame queue created with n slots (1 < n, silently reduced to the built-in maximum) hands the frames out in exactly the order they were added, holds at most n-1 unread frames, refuses a write slot exactly when full and a read exactly when empty, and reports exactly the number of unread frames. Adding to a full queue and removing from an empty one leave the queue unchanged; a removal reports the producer, an addition reports every registered consumer. A forced write on a full queue discards exactly one frame, the newest one, and counts it as lost.",
     ["histories", "inputs"],
     "Every interleaving of write-slot, add, read, remove, forced and flush operations, every queue size, every position of the ring.",
     "The unit tests run one short add/remove script on one queue size; wrap-around positions, every size and every operation order cannot be enumerated.",
     [S+"AVFramedQueue.cpp", S+"AVFramedQueue.hh", S+"FrameQueue.hh"],
     [("ring index arithmetic modulo the slot count", S+"AVFramedQueue.cpp:51-130"), ("flush accounting", S+"FrameQueue.hh:106")],
     ["return values of the queue operations", "queue element count", "lost blocks count"],
     [("rear/front", "next slot to write / next slot to read", S+"FrameQueue.hh")])

prop("P02", "The audio ring buffer delivers every accepted sample once, in order, unchanged",
     "For every channel, the bytes read out of the audio ring buffer are exactly the bytes that were accepted, in order, across any wrap-around, and a read request succeeds exactly when that many samples are stored. A block is accepted whole if and only if it fits in the free space, otherwise the buffer is unchanged; the number of stored bytes always equals accepted minus delivered and never exceeds the per-channel capacity. No operation reads or writes outside the channel buffers.",
     ["histories", "inputs"],
     "Every sequence of writes and reads, every block length, every read/write position, every sample format, 1..max channels.",
     "The unit test pushes a handful of equal-sized frames; split copies at every wrap position and unequal block sizes are not sampled.",
     [S+"AudioCircularBuffer.cpp", S+"AudioCircularBuffer.hh"],
     [("split copy at the end of the ring", S+"AudioCircularBuffer.cpp:225-300"), ("free space test", S+"AudioCircularBuffer.cpp:231")],
     ["frames returned by the buffer", "free samples", "acceptance of pushes"],
     [("rear/front/elements", "absolute byte positions written/read and their difference", S+"AudioCircularBuffer.hh")])

prop("P03", "Audio timestamp gaps become silence, overlaps are dropped, jumps resynchronise",
     "When an audio frame is added to the audio ring buffer, its time is compared with the time implied by the samples written since the last synchronisation: within the tolerance the samples are appended as they are; later than the tolerance but by less than the buffer's configured sample count, exactly the missing number of silent samples is inserted first; later than that, the buffer is emptied and resynchronised with the next frame; earlier than the tolerance, the frame is dropped and the buffer is unchanged. Every delivered frame carries the time implied by the number of samples delivered before it, and consumers are notified exactly when the frame's samples were stored.",
     ["histories", "inputs"],
     "Every timestamp, sample rate, buffer state and frame length.",
     "Tests use one gap and one overlap at one sample rate; boundaries and all positions are not covered.",
     [S+"AudioCircularBuffer.cpp"],
     [("deviation check", S+"AudioCircularBuffer.cpp:87-135"), ("presentation time of delivered frames", S+"AudioCircularBuffer.cpp:60-85")],
     ["consumer ids returned by an addition", "presentation time of delivered frames", "stored samples"])

prop("P04", "Sliced video frames enter the queue slice by slice, in order, with metadata",
     "Adding a sliced frame to a sliced video queue stores each of its slices, in order, as one queue element holding exactly that slice's bytes and length and the sliced frame's timing, sequence number and size, and reports the registered consumers. Once the queue is full, every further slice replaces exactly the newest queued element, which is counted as lost, and never an older one; a slice larger than the queue's slice capacity is never copied. A sliced frame accepts exactly sixteen slices, and after it was added it is empty again.",
     ["inputs", "histories"],
     "Every number of slices, slice length, queue fill level and ring position.",
     "The unit tests add a few equal slices to an empty queue.",
     [S+"SlicedVideoFrameQueue.cpp", S+"VideoFrame.cpp", S+"VideoFrame.hh"],
     [("slice copy loop", S+"SlicedVideoFrameQueue.cpp"), ("slice table bound", S+"VideoFrame.cpp")],
     ["queue elements after an addition"])

prop("P05", "Every sharing consumer gets each frame once before it is released",
     "When several consumers share one reader, each of them sees every frame as new exactly once, a frame leaves the queue only after every consumer registered at that time has both read it and released it, and it leaves it exactly once. The producer is reported only by the release that really removes the frame; a consumer that is not registered gets no frame and its releases never remove one ahead of the registered ones.",
     ["histories", "configurations"],
     "Every number of sharing consumers and every order of reads and releases by them.",
     "Unit tests share a reader between two consumers in one fixed order.",
     [S+"IOInterface.cpp", S+"IOInterface.hh"],
     [("per consumer read/release flags", S+"IOInterface.cpp:60-135")],
     ["frames and new-frame flags returned by reads", "ids returned by releases", "queue element count"],
     [("filters", "per consumer (not yet read, not yet released)", S+"IOInterface.hh")])

prop("P06", "A queue is destroyed exactly once, by whichever end disconnects last",
     "When one end of a connected queue (the producer side, or the last consumer side) disconnects, the queue survives and is marked disconnected; when the other end disconnects too, the queue is destroyed, exactly once, and neither end keeps referring to it. A consumer leaving a shared connection while others remain only withdraws its own registration, and disconnecting an unknown consumer changes nothing.",
     ["histories", "configurations"],
     "Every order of connect and disconnect operations on both ends, any number of sharing consumers.",
     "Tests disconnect in one order and do not observe destruction.",
     [S+"IOInterface.cpp", S+"FrameQueue.hh"],
     [("hand-over of ownership through the connected flag", S+"IOInterface.cpp:40-58,180-205,290-310")],
     ["liveness of the queue", "results of disconnect operations"])

prop("P07", "Media segments are well-formed fragments describing exactly their samples",
     "Every generated media segment is a sequence of complete boxes whose sizes add up to the returned length, with every nested box exactly tiling its parent; its fragment run lists exactly the samples added, in order, with their sizes, durations, sync flags and (for video) composition offsets, its data offset points at the first payload byte, and its media data payload is a verbatim copy of the samples. The fragment's sequence number, base decode time and segment index (earliest presentation time, duration, referenced size) equal those of the samples.",
     ["inputs", "histories"],
     "Every number of samples, every sample size, duration, timestamp and key flag, for AVC, HEVC and audio.",
     "Tests compare two or three recorded segments byte by byte with stored files.",
     [D+"i2libisoff.c", D+"i2libdash.c"],
     [("box writers", D+"i2libisoff.c"), ("offset bookkeeping between fragment header and run box", D+"i2libisoff.c")],
     ["bytes of the generated segment", "returned length"])

prop("P08", "Initialisation segments are well-formed and carry the stream's exact parameters",
     "Every generated initialisation segment is a sequence of complete boxes whose sizes add up to the returned length, with every nested box exactly tiling its parent; it is a function only of the stream parameters (two segments generated from the same parameters are identical), carries the given codec configuration verbatim, and states the configured time base and, for video, width and height, for audio, channel count, sample size and sample rate (each as the 16-bit word its sample entry holds).",
     ["inputs", "configurations"],
     "Every codec configuration content and length, every time base, picture size and audio format.",
     "Tests compare one recorded initialisation segment per codec with a stored file.",
     [D+"i2libisoff.c", D+"i2libdash.c"],
     [("box writers", D+"i2libisoff.c")],
     ["bytes of the generated segment", "returned length"])

prop("P09", "Segment contexts account every sample once and never overrun their buffers",
     "A sample is added to the current segment whole or rejected with an error and no effect: a video segment starts with a key frame; empty or oversized samples, and samples beyond the segment's byte or sample capacity, are rejected; the segment's payload is the concatenation of the accepted samples. The segment duration is the sum of its samples' durations, a video sample's duration being the decode-time distance to the next sample (for the last one of a segment, the presentation-time distance to the frame the segment is cut before), and after a segment has been produced its context is empty again, so that no sample appears in two segments.",
     ["histories", "inputs"],
     "Every sequence of samples, of any size, number and timing.",
     "Tests add a few small samples; the capacity bounds and full histories are never reached.",
     [D+"i2libdash.c", D+"i2context.h"],
     [("sample bookkeeping", D+"i2libdash.c:405-520"), ("context refresh", D+"i2libdash.c:105-130")],
     ["error codes", "segment payload", "segment timestamp and duration"])

prop("P10", "Segments are cut exactly at the target duration, on key frames for video",
     "An audio segment is produced exactly when its accumulated duration has reached the target (or when forced), and a video segment exactly when it holds a sample, the next frame is a key frame and the accumulated duration has come as close to the target as the frame spacing allows; otherwise no data is produced and nothing changes. A produced segment reports the presentation time of its first sample and its total duration, is marked complete and carries the next sequence number; an error or a refusal leaves the output segment untouched, except for the recorded time of the frame offered last. The target is the configured segment duration in the stream's current time base.",
     ["histories", "inputs"],
     "Every accumulated duration, next-frame time, key flag and target duration.",
     "Tests generate segments from one recorded stream with one target duration.",
     [D+"i2libdash.c", D+"Dasher.cpp", D+"DashVideoSegmenter.cpp", D+"DashAudioSegmenter.cpp"],
     [("cut decision", D+"i2libdash.c:330-400"), ("segment metadata", D+"Dasher.cpp")],
     ["returned segment length", "segment timestamp, duration, completeness and sequence number"])

prop("P11", "NAL units become length-prefixed access units without loss or overflow",
     "Feeding Annex B NAL units to the video segmenter strips a 3- or 4-byte start code and appends each coded picture NAL unit to the current frame as its 4-byte big-endian length followed by its exact payload; a unit that does not fit leaves the frame unchanged, a unit without payload is rejected, and parameter sets, delimiters and unknown units never enter a frame. A frame is complete at the first delimiter or unit with a later time; each completed frame is handed out once, carries the time stamps and picture size of its last unit, and is marked as key frame exactly when the last unit before it was complete, delimiters and suffix messages aside, is an intra picture unit. Once a parameter set of each type has arrived, the codec configuration consists of exactly the latest of each type.",
     ["inputs", "histories"],
     "Every NAL unit type, length and content, and every order of units and timestamps, for AVC and HEVC.",
     "Tests feed a few recorded NAL units of each type.",
     [D+"DashVideoSegmenter.cpp", D+"DashVideoSegmenterAVC.cpp", D+"DashVideoSegmenterHEVC.cpp"],
     [("start code detection", D+"DashVideoSegmenter.cpp"), ("frame assembly", D+"DashVideoSegmenter.cpp"), ("NAL unit dispatch", D+"DashVideoSegmenterAVC.cpp, "+D+"DashVideoSegmenterHEVC.cpp")],
     ["frames returned", "key frame state", "codec configuration"])

prop("P12", "AAC frames lose exactly their ADTS header, which sets the codec configuration",
     "For every AAC frame, the segmenter derives the object type, sampling frequency index and channel configuration exactly as encoded in the ADTS header, and its two-byte codec configuration encodes the same three values. The sample added to the segment is the frame without its header, no sample is ever produced from a frame shorter than the header, and its duration and time stamp are those of the audio frame expressed in the segment's time base.",
     ["inputs"],
     "Every header content, frame length, time stamp and sample rate.",
     "Tests use one recorded stereo AAC stream.",
     [D+"DashAudioSegmenter.cpp", D+"Dasher.cpp"],
     [("header field extraction", D+"DashAudioSegmenter.cpp"), ("sample insertion", D+"DashAudioSegmenter.cpp")],
     ["codec configuration bytes", "samples added to the segment"])

prop("P13", "The DASH manifest keeps exactly the newest segments of its sliding window",
     "Each set of segments in the manifest lists at most the configured maximum number of segments, always the most recently added ones, in order of arrival with the time and duration they were announced with. Announcing a segment reports the times of the segments that thereby left the window, oldest first, and none when none left, and the files of every representation of these segments, and of no other, are asked to be removed; the window size never goes below the minimum and the client buffer time stays between two segment durations and the whole window.",
     ["histories", "configurations"],
     "Every sequence of announced segments and every configuration.",
     "Tests announce a handful of segments with one window size.",
     [D+"MpdManager.cpp", D+"MpdManager.hh", D+"Dasher.cpp"],
     [("timeline window", D+"MpdManager.cpp"), ("configuration bounds", D+"MpdManager.cpp")],
     ["manifest timeline", "time stamp returned when a segment is announced"])

prop("P14", "Pictures are composed and cut inside their bounds, from valid settings only",
     "Mixer: a channel configuration is accepted only for a known channel, with a position in [0,1], a size in (0,1], an opacity in [0,1] and a layer from 0 to the number of channels; a layout size is accepted only from 1x1 to 1920x1080. A rejected request changes nothing, an accepted one is stored exactly as given. In every output picture each enabled channel that delivered a frame is painted exactly once with its own frame, in ascending order of the layers, and no other channel is painted; what exceeds the edge is cropped and nothing is painted when nothing remains, so that the painted region and the region it is taken from lie inside their pictures for every picture size. The output announces the size of the layout. Splitter: a crop is accepted only for a known output, with a non-negative position, a positive size and a rotation of at most 360 degrees either way, and is stored exactly as given. An output is delivered exactly if its crop lies inside the input picture; it then consists of exactly that region, announces its width and height and carries the input's times and sequence number. A frame delivered before is not written any more.",
     ["inputs", "configurations", "histories"],
     "Every numeric configuration, including negative, non-finite and border values, every picture size, every set of channels and layers.",
     "Tests try a few hand-picked values.",
     [S+"modules/videoMixer/VideoMixer.cpp", S+"modules/videoSplitter/VideoSplitter.cpp"],
     [("configuration checks", S+"modules/videoMixer/VideoMixer.cpp, "+S+"modules/videoSplitter/VideoSplitter.cpp"), ("composition and cutting", S+"modules/videoMixer/VideoMixer.cpp, "+S+"modules/videoSplitter/VideoSplitter.cpp")],
     ["result of the configuration request", "stored configurations", "output pictures"])

prop("P15", "The shared memory exporter publishes each frame whole behind a correct header",
     "The shared segment is written only while the hand-over flag says that it belongs to the writer, and the flag is switched to readable as the last step: nothing of the segment is written after that until the reader has switched it back. Whenever a frame is handed over, the header states sequence number, pixel format, codec, height, width, presentation time and payload length and is followed by exactly that many payload bytes: for raw video the frame's data, for H.264 the assembled picture, which consists of the coded units received since the last picture began, complete and in order, each behind a four byte start code, without access unit delimiters. A new picture begins with the first unit after a delimiter that carries another sequence number, also while the reader has the segment. Nothing is ever written outside the segment: a picture that does not fit is not handed over. Units that are too short or have no start code are ignored. Every frame is passed on downstream unchanged.",
     ["inputs", "histories"],
     "Every frame content, size and time stamp, every hand-over state.",
     "The test sends frames of one size between two processes and reads them back.",
     [S+"modules/sharedMemory/SharedMemory.cpp", S+"modules/sharedMemory/SharedMemory.hh"],
     [("header writer and hand-over flag", S+"modules/sharedMemory/SharedMemory.cpp")],
     ["bytes of the shared segment", "downstream frame"])

prop("P16", "Textual and numeric names of formats convert back and forth without loss",
     "For every supported filter type, role, audio and video codec, sample format and transmission format, converting the value to its name and back gives the same value, distinct values have distinct names, and every unknown name converts to the invalid value. The bytes per sample reported for a sample format are those of its interleaved or planar element type, and zero for an unknown one; the numeric codes exported to other processes convert back to the same codec and pixel format.",
     ["inputs"],
     "Every enumeration value and every string.",
     "No test covers the conversions; an infinite set of strings cannot be enumerated.",
     [S+"Utils.cpp", S+"modules/sharedMemory/SharedMemory.cpp"],
     [("conversion tables", S+"Utils.cpp")],
     ["results of the conversions"])

prop("P17", "Scheduled events run in due order and never before their time",
     "An event is executable exactly when the time elapsed since its reference time is at least its delay, to the millisecond. Of two queued events the one with the earlier reference time always comes first.",
     ["inputs", "histories"],
     "Every reference time, delay and current time.",
     "No unit test covers events.",
     [S+"Event.cpp", S+"Filter.cpp"],
     [("due test and ordering", S+"Event.cpp")],
     ["executability of an event", "order of event execution"])

prop("P18", "Encoder settings are validated atomically; coded pictures keep their own times",
     "An encoder configuration with a zero bit rate, zero group of pictures, zero threads or empty preset is rejected and changes nothing; any other is stored exactly as given, a missing frame rate falling back to the default and the group-of-pictures time never below the minimum. Every coded picture is delivered with the presentation time, origin time and sequence number of the raw picture it was coded from, whatever reordering the encoder does.",
     ["inputs", "histories"],
     "Every configuration and every encoder reordering.",
     "No stable test encodes video.",
     [S+"modules/videoEncoder/VideoEncoderX264or5.cpp"],
     [("configuration check", S+"modules/videoEncoder/VideoEncoderX264or5.cpp:125-170"), ("time table", S+"modules/videoEncoder/VideoEncoderX264or5.cpp:80-105")],
     ["stored configuration", "times of coded frames"])

prop("P19", "The H.264 bitstream reader never reads or writes outside its buffers",
     "Whatever bytes are received as a sequence parameter set, unescaping and parsing them never reads beyond the input, never writes outside the output or the parsed structure and always terminates. Removing the emulation prevention bytes yields at most as many bytes as were given and succeeds exactly on payloads without forbidden byte patterns; fixed-length and Exp-Golomb fields are decoded to the values they encode, zeros standing in for bits behind the end. Every field of the parameter set, with its scaling lists, usability and reference decoder parts, is read at the position and with the code the syntax tables of the standard give it, fields that are absent are zero, and a parameter set with counts beyond the decoder's arrays is refused.",
     ["inputs"],
     "Every byte string of every length.",
     "No test covers the parser.",
     [S+"modules/transmitter/SPSparser/h264_stream.c", S+"modules/transmitter/SPSparser/bs.h"],
     [("bit reader", S+"modules/transmitter/SPSparser/bs.h"), ("parameter set parser", S+"modules/transmitter/SPSparser/h264_stream.c")],
     ["parsed fields", "memory accesses"])

prop("P20", "Mixer gains are bounded and mixed audio never leaves the valid range",
     "Gains and volumes are stored exactly as requested when they are between silence and full gain and replaced by the nearest of these otherwise (silence for what is not a number); requests for unknown channels or without the needed parameters change nothing, and a solo request leaves the channel at full gain and every other one silent. Every sample the audio mixer delivers lies between -1 and 1, whatever the inputs, gains and number of channels: sums up to the limiter's threshold are exact and louder ones stay beyond it and inside full scale; 16 bit samples survive the conversion to numbers and back. Samples are mixed only at the position their time gives inside the mixing buffers; frames that are late, do not fit or lack channels change nothing; a jump in time restarts the mixer with silence. A delivered frame has the oldest waiting samples, in order and with their time, and the cells they leave are silent again.",
     ["inputs", "configurations", "histories"],
     "Every input sample, gain, channel, position and request.",
     "The test mixes a few recorded channels.",
     [S+"modules/audioMixer/AudioMixer.cpp", S+"modules/audioMixer/AudioMixer.hh"],
     [("limiter and gain setters", S+"modules/audioMixer/AudioMixer.cpp")],
     ["delivered samples", "stored gains"])

prop("P21", "A frame's payload never exceeds the buffer it was created with",
     "A frame is created with room for at least its largest possible payload: width times height times the bytes per pixel of its pixel format for raw video, samples times channels times bytes per sample for audio, or the requested maximum for coded data. The capacity it reports never exceeds the memory it owns, planar audio gives each channel its own buffer of that size, and filling or copying through the frame stays inside it.",
     ["inputs", "configurations"],
     "Every picture size, pixel format, channel count, sample format and length.",
     "Tests create frames of a few fixed sizes.",
     [S+"VideoFrame.cpp", S+"AudioFrame.cpp", S+"AudioFrame.hh", S+"VideoFrame.hh"],
     [("buffer allocation", S+"VideoFrame.cpp, "+S+"AudioFrame.cpp")],
     ["allocated size", "reported capacity"])

prop("P22", "Filters connect all or nothing, within their reader and writer limits",
     "Two different filters connect exactly when the writer and reader identifiers are free, both filters have room, both accept and a queue can be made; then both ends refer to the same new, connected queue, which knows its ends, and all other connections stay. A refused connection leaves both filters as they were and no queue behind. The numbers of readers and writers never exceed their limits, also when a reader is shared; a shared reader is the same object in both filters. Generated identifiers are not in use. Disconnecting forgets exactly the connection that was asked for.",
     ["histories", "configurations"],
     "Every order of connections, disconnections and failures.",
     "Tests run a few connection scripts.",
     [S+"Filter.cpp", S+"Filter.hh", S+"IOInterface.cpp"],
     [("connection set-up and roll-back", S+"Filter.cpp")],
     ["results of connection operations", "reader and writer counts"])

prop("P23", "Each filter runs in at most one worker at a time and no work is lost",
     "At any time a filter is being processed by at most one worker thread, a filter that has pending work is eventually run, and after a filter has been removed from the pool no worker runs it any more.",
     ["schedules", "histories"],
     "Every interleaving of worker threads and task operations.",
     "The test adds and removes tasks once with real threads.",
     [S+"WorkersPool.cpp", S+"Runnable.cpp"],
     [("task queue under one mutex, running flag", S+"WorkersPool.cpp")],
     ["which worker runs which filter"])

prop("P24", "Received and transmitted streams keep frame order, boundaries and times",
     "Every frame received from the network enters the pipeline once, in order, with its presentation time, and every frame leaving the pipeline towards the network is sent unmodified, in order, without its start code.",
     ["inputs", "histories"],
     "Every packet sequence.",
     "These modules are not built or tested here.",
     [S+"modules/receiver", S+"modules/transmitter"],
     [("queue sinks and sources", S+"modules/receiver/QueueSink.cpp, "+S+"modules/transmitter/QueueSource.cpp")],
     ["network packets"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
