From 8abe6f85dc47d8da7c5eafb88942253d318b53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:49 +0000
Subject: [PATCH 01/47] fix: reject samples beyond the segment's capacity

---
 src/modules/dasher/i2context.h |  3 ++-
 src/modules/dasher/i2libdash.c | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 56facfe..d24210d 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -31,9 +31,10 @@ typedef unsigned char byte;
 #define VIDEO_TYPE_HEVC 2            //AVC1_VIDEO_TYPE  &   HEV1_VIDEO_TYPE
 #define AUDIO_TYPE 3
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
-#define MAX_DAT 10*1024*1024 
+#define MAX_DAT (10*1024*1024)
 //TODO: error negative values
 #define I2ERROR_MAX 10
+#define I2ERROR_SEGMENT_FULL 10
 #define I2ERROR_SPS_PPS 9
 #define I2ERROR_IS_INTRA 8
 #define I2ERROR_DURATION_ZERO 7
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6158c69..2626e1e 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -435,6 +435,11 @@ uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t
         return I2ERROR_IS_INTRA;
     }
 
+    if (ctxSample->mdat_sample_length >= MAX_MDAT_SAMPLE ||
+        input_data_length > MAX_DAT - (*context)->ctxvideo->segment_data_size) {
+        return I2ERROR_SEGMENT_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxvideo->segment_data + (*context)->ctxvideo->segment_data_size, input_data, input_data_length);
     (*context)->ctxvideo->segment_data_size += input_data_length;
@@ -482,6 +487,11 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
     // Add sample or Init new segmentation
     i2ctx_sample *ctxSample = (*context)->ctxaudio->ctxsample;
     
+    if (ctxSample->mdat_sample_length >= MAX_MDAT_SAMPLE ||
+        input_data_length > MAX_DAT - (*context)->ctxaudio->segment_data_size) {
+        return I2ERROR_SEGMENT_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxaudio->segment_data + (*context)->ctxaudio->segment_data_size, input_data, input_data_length);
     (*context)->ctxaudio->segment_data_size += input_data_length;
-- 
2.43.0


From db346cd00da635efd7b4e2002ebb57824d59a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:49 +0000
Subject: [PATCH 02/47] fix: cut video segments across gaps longer than the
 target

---
 src/modules/dasher/i2libdash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 2626e1e..d0b8c02 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -329,7 +329,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
 
     lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
 
-    if ((nextFrameIsIntra == TRUE) && ((((*context)->duration - lastSampleDuration)) <= ((*context)->ctxvideo->current_video_duration + lastSampleDuration))) {
+    if ((nextFrameIsIntra == TRUE) && (((int64_t)(*context)->duration - (int32_t)lastSampleDuration) <= ((int64_t)(*context)->ctxvideo->current_video_duration + (int32_t)lastSampleDuration))) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
         (*context)->ctxvideo->current_video_duration += lastSampleDuration;
 
-- 
2.43.0


From 6e4bec12b2da911c01cd2a29bc773b580eeb6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 03/47] fix: read all three bits of the ADTS channel
 configuration

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 85893c1..e9e0741 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -211,7 +211,7 @@ unsigned char DashAudioSegmenter::getSamplingFreqIdxFromADTSHeader(unsigned char
 
 unsigned char DashAudioSegmenter::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char DashAudioSegmenter::getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
-- 
2.43.0


From 8130f56820703d0f6e851bab8b4844598440722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 04/47] fix: do not append AAC frames without payload after the
 ADTS header

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index e9e0741..32c9cb8 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -134,7 +134,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned int addSampleReturn;
     uint32_t timeBasePts;
 
-    if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
+    if (!frame || !frame->getDataBuf() || frame->getLength() <= ADTS_HEADER_LENGTH || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
         return false;
     }
-- 
2.43.0


From ca1694f7401e89c40bc69436f39be7233101b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 05/47] fix: keep 64 bit time stamps of audio samples

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 32c9cb8..d983fbe 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -132,7 +132,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned char* dataWithoutADTS;
     unsigned int dataLengthWithoutADTS;
     unsigned int addSampleReturn;
-    uint32_t timeBasePts;
+    uint64_t timeBasePts;
 
     if (!frame || !frame->getDataBuf() || frame->getLength() <= ADTS_HEADER_LENGTH || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
-- 
2.43.0


From 6b9c0956e03284cbcc9b3b073b5402eeaf876bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 06/47] fix: reject AVC NAL units shorter than their start code

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 872910c..58d2fdb 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -67,7 +67,7 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
 {
     int startCodeOffset;
     unsigned char* nalData;
-    unsigned nalDataLength;
+    int nalDataLength;
     unsigned char nalType;
     bool newFrame = false;
 
-- 
2.43.0


From 9fe0dc5770d3025861a3bd5092e657b9fbebd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 07/47] fix: do not read the profile of an AVC SPS that is too
 short to have one

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 58d2fdb..32d6567 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -43,7 +43,7 @@ uint8_t DashVideoSegmenterAVC::generateContext()
 
 void DashVideoSegmenterAVC::updateExtradata()
 {
-    if (sps.empty() || pps.empty()) {
+    if (sps.size() < 3 || pps.empty()) {
         return;
     }
 
-- 
2.43.0


From ccf937272e40670462dbc97844d4d8a013cc05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 08/47] fix: a suffix SEI does not clear the key frame mark of
 its HEVC picture

---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index c703b1b..e5f34c6 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -100,9 +100,9 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
             currentIntra = false;
             break;
         case PREFIX_SEI_NUT:
-        case SUFFIX_SEI_NUT:
             currentIntra = false;
             break;
+        case SUFFIX_SEI_NUT:
         case AUD_HEVC:
             break;
         case IDR1:
-- 
2.43.0


From 8e3caa4efd5f615f1bfd1054ad954952d4c96a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 09/47] fix: initialise the default sample duration of a video
 context

It was written to the initialisation segment without ever being set.
---
 src/modules/dasher/i2libdash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index d0b8c02..db4b1d2 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -81,6 +81,7 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     ctxVideo->width = 0;
     ctxVideo->height = 0;
     ctxVideo->time_base = 0;
+    ctxVideo->sample_duration = 0;
     ctxVideo->earliest_presentation_time = 0;
     ctxVideo->sequence_number = 0;
     ctxVideo->current_video_duration = 0;
-- 
2.43.0


From fddf5c60de858d3abb7b9afcf71d574a5f415ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 10/47] fix: make room for the boxes of a segment, not only for
 its payload

A context accepts MAX_DAT bytes of samples, the segment made of them is
longer than that by its headers and overran its buffer.
---
 src/modules/dasher/Dasher.hh   | 2 +-
 src/modules/dasher/i2context.h | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 3bd7f0f..1d3179a 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -237,7 +237,7 @@ public:
     * Class constructor
     * @param maxSize Segment data max length
     */
-    DashSegment(unsigned int maxSize = MAX_DAT);
+    DashSegment(unsigned int maxSize = MAX_SEGMENT_SIZE);
 
     /**
     * Class destructor
diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index d24210d..370d2f4 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -32,6 +32,8 @@ typedef unsigned char byte;
 #define AUDIO_TYPE 3
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
 #define MAX_DAT (10*1024*1024)
+// payload, at most 16 bytes per sample in the fragment run and the remaining boxes
+#define MAX_SEGMENT_SIZE (MAX_DAT + 16*MAX_MDAT_SAMPLE + 4096)
 //TODO: error negative values
 #define I2ERROR_MAX 10
 #define I2ERROR_SEGMENT_FULL 10
-- 
2.43.0


From b210a133cc30e89a9c97700ffd694834abaa7b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 11/47] fix: refuse a codec configuration that does not fit an
 init segment

---
 src/modules/dasher/DashVideoSegmenter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 0a15d68..260c995 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -97,6 +97,10 @@ bool DashVideoSegmenter::generateInitSegment(DashSegment* segment)
         return false;
     }
 
+    if (extradata.size() > MAX_DAT) {
+        return false;
+    }
+
     data = reinterpret_cast<unsigned char*> (&extradata[0]);
     dataLength = extradata.size();
 
-- 
2.43.0


From a5932b9097c5131f278bb645b725b97a025303b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 12/47] fix: silence frame of the audio buffer holds the
 longest padding

---
 src/AudioCircularBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 5862326..199af88 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -207,7 +207,7 @@ bool AudioCircularBuffer::setup()
 
     inputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
     outputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
-    dummyFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
+    dummyFrame = PlanarAudioFrame::createNew(channels, sampleRate, chMaxSamples, PCM, sampleFormat);
     dummyFrame->fillWithValue(0);
 
     outputFrame->setSamples(AudioFrame::getDefaultSamples(sampleRate));
-- 
2.43.0


From d8a01f02650a0f2eb119cb196612727af9235712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 13/47] fix: audio buffer refuses more channels than it has
 room for

---
 src/AudioCircularBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 199af88..b0f95dc 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -179,7 +179,7 @@ Frame* AudioCircularBuffer::forceGetFront()
 
 bool AudioCircularBuffer::setup()
 {
-    if (channels <= 0 || sampleRate <= 0 || chMaxSamples <= 0) {
+    if (channels <= 0 || channels > MAX_CHANNELS || sampleRate <= 0 || chMaxSamples <= 0) {
         return false;
     }
 
-- 
2.43.0


From 382ef999df162aef270b1f15698300233347e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 14/47] fix: audio buffer sample positions and gaps do not wrap
 at 32 bits

---
 src/AudioCircularBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index b0f95dc..ef0cc56 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -69,7 +69,7 @@ Frame* AudioCircularBuffer::getRear()
 Frame* AudioCircularBuffer::getFront()
 {
     std::chrono::microseconds ts;
-    unsigned frontSampleIdx;
+    size_t frontSampleIdx;
 
     std::lock_guard<std::mutex> guard(mtx);
 
@@ -99,8 +99,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds rearTs;
     std::chrono::microseconds deviation;
     std::vector<int> ret;
-    unsigned paddingSamples;
-    unsigned rearSampleIdx;
+    size_t paddingSamples;
+    size_t rearSampleIdx;
 
     inTs = inputFrame->getPresentationTime();
 
-- 
2.43.0


From de645c2c3d689f41970bc77b9cc6386dfc2b5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 15/47] fix: audio buffer writer updates the stored size under
 the lock of its reader

---
 src/AudioCircularBuffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index ef0cc56..4b4ac84 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -226,6 +226,8 @@ bool AudioCircularBuffer::pushBack(unsigned char **buffer, int samplesRequested)
     unsigned rearMod;
     int firstCopiedBytes;
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     if (bytesRequested > (channelMaxLength - elements)) {
         return false;
     }
-- 
2.43.0


From be46f63591cbf41ade63d68b10a0912aff638c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 16/47] fix: new audio frames are empty

---
 src/AudioFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 006f687..b937ec4 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -65,7 +65,7 @@ InterleavedAudioFrame* InterleavedAudioFrame::createNew(int ch, int sRate, int m
 }
 
 InterleavedAudioFrame::InterleavedAudioFrame(int ch, int sRate, int maxSamples, ACodecType codec, SampleFmt sFmt)
-: AudioFrame(ch, sRate, maxSamples, codec, sFmt)
+: AudioFrame(ch, sRate, maxSamples, codec, sFmt), bufferLen(0)
 {
     bufferMaxLen = bytesPerSample * maxSamples * MAX_CHANNELS;
     frameBuff = new unsigned char [bufferMaxLen]();
@@ -98,7 +98,7 @@ PlanarAudioFrame* PlanarAudioFrame::createNew(int ch, int sRate, int maxSamples,
 }
 
 PlanarAudioFrame::PlanarAudioFrame(int ch, int sRate, int maxSamples, ACodecType codec, SampleFmt sFmt)
-: AudioFrame(ch, sRate, maxSamples, codec, sFmt)
+: AudioFrame(ch, sRate, maxSamples, codec, sFmt), bufferLen(0)
 {
     bufferMaxLen = bytesPerSample * maxSamples;
 
-- 
2.43.0


From 084255f53ac81f192fad56e417885b5cc8ea4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 17/47] fix: fillWithValue stays inside the interleaved buffer

---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index b937ec4..279c1e5 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -78,7 +78,7 @@ InterleavedAudioFrame::~InterleavedAudioFrame()
 
 void InterleavedAudioFrame::fillWithValue(int value)
 {
-    memset(frameBuff, value, bufferMaxLen*channels);
+    memset(frameBuff, value, bufferMaxLen);
 }    
 
 
-- 
2.43.0


From 87a0f4816a19852f6a2a71e3c36042cd6b170eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 18/47] fix: interleaved frames have room for all their
 channels

---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 279c1e5..344551e 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -67,7 +67,7 @@ InterleavedAudioFrame* InterleavedAudioFrame::createNew(int ch, int sRate, int m
 InterleavedAudioFrame::InterleavedAudioFrame(int ch, int sRate, int maxSamples, ACodecType codec, SampleFmt sFmt)
 : AudioFrame(ch, sRate, maxSamples, codec, sFmt), bufferLen(0)
 {
-    bufferMaxLen = bytesPerSample * maxSamples * MAX_CHANNELS;
+    bufferMaxLen = bytesPerSample * maxSamples * (ch > MAX_CHANNELS ? ch : MAX_CHANNELS);
     frameBuff = new unsigned char [bufferMaxLen]();
 }
 
-- 
2.43.0


From bd4fa9475a2ee620f4198b4e5450c5d41403a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 19/47] fix: default samples per frame above 107 kHz

---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 344551e..8494f7a 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -33,7 +33,7 @@ int AudioFrame::getMaxSamples(int sampleRate)
 
 int AudioFrame::getDefaultSamples(int sampleRate)
 {
-    return (DEFAULT_FRAME_TIME*sampleRate)/1000000;
+    return ((DEFAULT_FRAME_TIME/1000)*sampleRate)/1000;
 }
 
 
-- 
2.43.0


From 349e1c3ec21069697d61474694c24ed688280670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 20/47] fix: planar frames and queues with more channels than
 planes are refused

---
 src/AVFramedQueue.cpp | 4 ++++
 src/AudioFrame.cpp    | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 7de8744..558dab9 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -231,6 +231,10 @@ bool AudioFrameQueue::setup()
                             streamInfo->audio.sampleRate,
                             AudioFrame::getMaxSamples(streamInfo->audio.sampleRate),
                             streamInfo->audio.codec, streamInfo->audio.sampleFormat);
+
+                    if (!frames[i]) {
+                        return false;
+                    }
                 }
             } else {
                  utils::errorMsg("[Audio Frame Queue] Sample format not supported!");
diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 8494f7a..3042e5f 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -94,6 +94,11 @@ PlanarAudioFrame* PlanarAudioFrame::createNew(int ch, int sRate, int maxSamples,
         return NULL;
     }
 
+    if (ch > MAX_CHANNELS) {
+        utils::errorMsg("[PlanarAudioFrame] Number of channels not supported");
+        return NULL;
+    }
+
     return new PlanarAudioFrame(ch, sRate, maxSamples, codec, sFmt);
 }
 
-- 
2.43.0


From a7b5da083dec2aab161ba237e411c2a4ad6d2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 21/47] fix: slices above the slice capacity are discarded
 instead of overflowing

---
 src/SlicedVideoFrameQueue.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 93cc8ad..080c922 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -133,6 +133,11 @@ void SlicedVideoFrameQueue::pushBackSliceGroup(Slice* slices, int sliceNum)
 
     for (int i=0; i<sliceNum; i++) {
 
+        if (slices[i].getDataSize() > frames[rear]->getMaxLength()) {
+            utils::warningMsg("[SlicedVideoFrameQueue] Slice bigger than the maximum slice size, discarding it");
+            continue;
+        }
+
         if ((frame = innerGetRear()) == NULL){
             frame = innerForceGetRear();
         }
-- 
2.43.0


From b9f0500ab090e2d0a116405ed774fe3a4621942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 22/47] fix: a consumer that leaves a shared reader does not
 keep its frame; releases without a frame are ignored; no frame is kept from a
 queue that was left

---
 src/IOInterface.cpp | 25 +++++++++++++++++++------
 src/IOInterface.hh  |  1 +
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 4481d84..380c7a2 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -53,6 +53,8 @@ bool Reader::disconnectQueue()
     }
     
     queue = NULL;
+    frame = NULL;
+    ready = true;
     
     return true;
 }
@@ -123,20 +125,27 @@ int Reader::removeFrame(int fId)
 {
     std::lock_guard<std::mutex> guard(lck);
     
-    if (filters.count(fId) > 0){
-        filters[fId].second = false;
+    if (filters.count(fId) == 0 || !frame){
+        return -1;
     }
+
+    filters[fId].second = false;
     
     if (allRead()){
-        measureDelay();
-        frame = NULL;
-        ready = true;
-        return queue ? queue->removeFrame() : -1;
+        return releaseFrame();
     }
     
     return -1;
 }
 
+int Reader::releaseFrame()
+{
+    measureDelay();
+    frame = NULL;
+    ready = true;
+    return queue ? queue->removeFrame() : -1;
+}
+
 void Reader::measureDelay()
 {
     if(lastTs.count() < 0){
@@ -205,6 +214,10 @@ bool Reader::disconnect(int id)
     }
     
     if (filters.size() > 0){
+        //The leaving filter may be the last one that was holding the current frame
+        if (frame && allRead()){
+            releaseFrame();
+        }
         return true;
     }
     
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index 02d2a58..ed53b3f 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -208,6 +208,7 @@ private:
     bool disconnectQueue();
     void measureDelay();
     bool allRead();
+    int releaseFrame();
 
     friend class Writer;
      
-- 
2.43.0


From e9b0fe70af2e393aa08be204d4b963ba9f25b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 23/47] fix: a reader releases the queue its writer abandoned
 before it is connected to another one

---
 src/IOInterface.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 380c7a2..d819485 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -193,6 +193,11 @@ void Reader::setConnection(FrameQueue *queue)
     
     ReaderData rData;
     
+    //A queue abandoned by its writer is released before referring to the new one
+    if (this->queue != queue){
+        disconnectQueue();
+    }
+
     this->queue = queue;
     
     rData = queue->getCData().readers.front();
-- 
2.43.0


From a178f7fc989af2948ed0bce86627478bdd513a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 24/47] fix: report every segment that leaves the manifest
 window, also the one starting at time zero

---
 src/modules/dasher/Dasher.cpp     | 20 ++++++++++++--------
 src/modules/dasher/MpdManager.cpp | 16 +++++++---------
 src/modules/dasher/MpdManager.hh  |  7 ++++---
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f840bed..492c3db 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -246,7 +246,7 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -284,12 +284,14 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
+    rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(vSegments, rmTimestamp, V_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTs : rmTimestamps) {
+        if (!cleanSegments(vSegments, rmTs, V_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
@@ -311,7 +313,7 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
 
     if (aSegments.empty()) {
         return false;
@@ -337,12 +339,14 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
+    rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(aSegments, rmTimestamp, A_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTs : rmTimestamps) {
+        if (!cleanSegments(aSegments, rmTs, A_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 64eb531..8fd70e3 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -113,19 +113,17 @@ void MpdManager::writeToDisk(const char* fileName)
     doc.SaveFile(fileName);
 }
 
-uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
+std::vector<uint64_t> MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
 {
     AdaptationSet* adSet;
-    uint64_t removedTimestamp;
 
     adSet = getAdaptationSet(id);
 
     if (!adSet) {
-        return 0;
+        return std::vector<uint64_t>();
     }
 
-    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg);
-    return removedTimestamp;
+    return adSet->updateTimestamp(ts, duration, maxSeg);
 }
 
 bool MpdManager::flushAdaptationSetTimestamps(std::string id)
@@ -238,17 +236,17 @@ AdaptationSet::~AdaptationSet()
 { 
 }
 
-uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
+std::vector<uint64_t> AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
 {
-    uint64_t removedTimestamp= 0;
+    std::vector<uint64_t> removedTimestamps;
 
     while (timestamps.size() >= maxSeg) {
-        removedTimestamp = timestamps.front().first;
+        removedTimestamps.push_back(timestamps.front().first);
         timestamps.pop_front();
     }
 
     timestamps.push_back(std::pair<uint64_t,uint64_t>(ts, duration));
-    return removedTimestamp;
+    return removedTimestamps;
 }
 
 void AdaptationSet::flushTimestamps()
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 19772cc..b4fc306 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -24,6 +24,7 @@
 
 #include <map>
 #include <deque>
+#include <vector>
 #include <tinyxml2.h>
 
 #define MIN_SEGMENT 2
@@ -105,9 +106,9 @@ public:
     * @param id Adaptation set Id. Must exist.
     * @param ts Timestamp of the current segment in timescale base.
     * @param duration Duration of the current segment in timescale base.
-    * @return true if succeeded and false if not
+    * @return Timestamps of the segments that left the window, from the oldest to the newest one. It is empty if none did.
     */
-    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
+    std::vector<uint64_t> updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
 
     /**
     * Updates an existing video representation. If it does not exists, it creates a new one. Each representation is
@@ -213,7 +214,7 @@ public:
     * Sets timestamp and duration
     * @see MpdManager::updateAdaptationSetTimestamp 
     */
-    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
+    std::vector<uint64_t> updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
 
     /**
     * Sets timescale, segment template and init template values
-- 
2.43.0


From 783645f28e396ed876bb8ffb26380f6b94eb9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:57 +0000
Subject: [PATCH 25/47] fix: paint channels on the highest accepted layer of
 the video mixer

---
 src/modules/videoMixer/VideoMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 22a45db..36beaa3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -114,7 +114,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
     layoutImg = cv::Scalar(0, 0, 0);
 
-    for (int lay=0; lay < maxChannels; lay++) {
+    for (int lay=0; lay <= maxChannels; lay++) {
 
         for (auto it : orgFrames) {
 
-- 
2.43.0


From abec56678a11675d5b0bf40f4d42dba20dda47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:57 +0000
Subject: [PATCH 26/47] fix: reject channel values outside of the layout (or
 not a number) in the video mixer

---
 src/modules/videoMixer/VideoMixer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 36beaa3..5f584f3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -165,7 +165,8 @@ bool VideoMixer::configChannel0(int id, float width, float height, float x, floa
         return false;
     }
 
-    if (x < 0 || y < 0 || width <= 0 || height <= 0 || opacity < 0 || opacity > 1.0) {
+    if (!(x >= 0 && x <= 1 && y >= 0 && y <= 1 && width > 0 && width <= 1 && 
+          height > 0 && height <= 1 && opacity >= 0 && opacity <= 1)) {
         utils::errorMsg("[VideoMixer] Error configuring channel. Incoherent values");
         return false;
     }
-- 
2.43.0


From 6c3796d8933935f64d816d01809d567b33a539a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:57 +0000
Subject: [PATCH 27/47] fix: paint nothing when nothing of a channel is inside
 of the layout

---
 src/modules/videoMixer/VideoMixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 5f584f3..812dcf8 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -217,6 +217,10 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
     int x = chConfig->getX()*outputWidth;
     int y = chConfig->getY()*outputHeight;
 
+    if (img.empty() || sz.width <= 0 || sz.height <= 0 || x >= outputWidth || y >= outputHeight) {
+        return;
+    }
+
     if (vFrame->getHeight() != sz.height || vFrame->getWidth() != sz.width) {
         cv::Mat resized(sz, img.type());
         cv::resize(img, resized,sz);
-- 
2.43.0


From 60d4de35d9ff9cb79fb82d6c0f3184758124c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:57 +0000
Subject: [PATCH 28/47] fix: a crop gets its own picture instead of writing
 into the frame delivered before

---
 src/modules/videoSplitter/VideoSplitter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 808311b..a1acd16 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -41,9 +41,7 @@ void CropConfig::config(int width, int height, int x, int y, int degree)
     this->x = x;
     this->y = y;
     this->degree = degree;
-    cv::Mat img(height, width, CV_8UC3);
-    img.copyTo(this->crop);
-
+    this->crop = cv::Mat(height, width, CV_8UC3);
 }
 
 ///////////////////////////////////////////////////
-- 
2.43.0


From f9abdb951de97af3953a6f0d4eb3e8f1aa2950c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:57 +0000
Subject: [PATCH 29/47] fix: cut only regions that lie inside of the picture

---
 src/modules/videoSplitter/VideoSplitter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index a1acd16..441ec86 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -140,7 +140,8 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		widthROI = cropsConfig[it.first]->getWidth();
 		heightROI = cropsConfig[it.first]->getHeight();
 
-		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
+		if(xROI >= 0 && yROI >= 0 && widthROI > 0 && heightROI > 0 && 
+				xROI <= vFrame->getWidth() - widthROI && yROI <= vFrame->getHeight() - heightROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
 			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
 			vFrameDst->setLength(widthROI * heightROI);
-- 
2.43.0


From bd6c7e2f6264a5bbb2366a770f715259dd9de766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:46 +0000
Subject: [PATCH 30/47] fix: check the size of a coded picture before copying
 it into shared memory

---
 src/modules/sharedMemory/SharedMemory.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index c04eb39..37c76d4 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -189,15 +189,21 @@ void SharedMemory::writeSharedMemoryH264()
     uint8_t* data;
     unsigned dataLength;
     uint32_t length;
-    data = reinterpret_cast<uint8_t*> (&frameData[0]);
-    dataLength = frameData.size();
-    length = dataLength;
 
-    if (!data) {
+    if (frameData.empty()) {
         utils::errorMsg("SharedMemory::error - no data from appended frame");
         return;
     }
 
+    if (frameData.size() > MAX_SIZE) {
+        utils::errorMsg("SharedMemory::error - frame exceeds the shared memory size");
+        return;
+    }
+
+    data = reinterpret_cast<uint8_t*> (&frameData[0]);
+    dataLength = frameData.size();
+    length = dataLength;
+
     *access = CHAR_WRITING;
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
-- 
2.43.0


From e978d523746547f8d2dd48bbdec61a128382b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:46 +0000
Subject: [PATCH 31/47] fix: look for the start code of a NAL unit only inside
 its data

---
 src/modules/sharedMemory/SharedMemory.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 37c76d4..d70cd47 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -217,18 +217,18 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     unsigned char* nalData;
     int nalDataLength;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    nalData = nal->getDataBuf();
+    nalDataLength = nal->getLength();
 
-    if(startCodeOffset == 0){
-        utils::errorMsg("Error parsing NAL: no start code detected");
+    if (!nalData || nalDataLength < LONG_START_CODE_LENGTH) {
+        utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return false;
     }
 
-    nalData = nal->getDataBuf();
-    nalDataLength = nal->getLength();
+    startCodeOffset = detectStartCode(nalData);
 
-    if (!nalData || nalDataLength <= 0) {
-        utils::errorMsg("Error parsing NAL: invalid data pointer or length");
+    if(startCodeOffset == 0 || startCodeOffset >= nalDataLength){
+        utils::errorMsg("Error parsing NAL: no start code detected");
         return false;
     }
 
-- 
2.43.0


From 9486f9168db4eafa9c5ceba1d2604a2a5d56d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:46 +0000
Subject: [PATCH 32/47] fix: reject raw frames that do not fit the shared
 memory

---
 src/modules/sharedMemory/SharedMemory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index d70cd47..15180bb 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -294,6 +294,10 @@ bool SharedMemory::appendNalToFrame(unsigned char* nalData, unsigned nalDataLeng
 
 int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
 {
+    if (buf_size < 0 || buf_size > MAX_SIZE) {
+        utils::errorMsg("SharedMemory::error - frame exceeds the shared memory size");
+        return -1;
+    }
 
     *access = CHAR_WRITING;
     memcpy(buffer, buf, sizeof(uint8_t) * buf_size);
-- 
2.43.0


From 4c11927c2a02c5cd59a46760e25c3155be4937db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 33/47] fix: keep the master gain and not-a-number gains inside
 the permitted range

---
 src/modules/audioMixer/AudioMixer.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c65267f..4724d0b 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -299,10 +299,10 @@ bool AudioMixer::setChannelGain(int id, float value)
 
     if (value > 1) {
         gains[id] = 1;
-    } else if (value < 0) {
-        gains[id] = 0;
-    } else {
+    } else if (value >= 0) {
         gains[id] = value;
+    } else {
+        gains[id] = 0;
     }
 
     return true;
@@ -384,7 +384,14 @@ bool AudioMixer::changeMasterVolumeEvent(Jzon::Node* params)
     }
 
     gain = params->Get("gain").ToFloat();
-    masterGain = gain;
+
+    if (gain > 1) {
+        masterGain = 1;
+    } else if (gain >= 0) {
+        masterGain = gain;
+    } else {
+        masterGain = 0;
+    }
 
     return true;
 }
-- 
2.43.0


From 0764647d04b51cf373214b1907bf334896cf4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 34/47] fix: limit the samples that are mixed to full scale

---
 src/modules/audioMixer/AudioMixer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 4724d0b..1a79bae 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -167,6 +167,14 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
 
 void AudioMixer::mixSample(float sample, float* mixBuff, int bufferIdx, float gain)
 {
+    if (sample > 1) {
+        sample = 1;
+    } else if (sample < -1) {
+        sample = -1;
+    } else if (std::isnan(sample)) {
+        sample = 0;
+    }
+
     mixBuff[bufferIdx] += sample*gain*masterGain;
 
     if (mixBuff[bufferIdx] > th) {
-- 
2.43.0


From 109d20b4f4046c18fd4a9e29ce2933a8aca22835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 35/47] fix: full scale samples overflowed in 16 bit
 conversions

---
 src/modules/audioMixer/AudioMixer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 1a79bae..eb10061 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -258,7 +258,13 @@ bool AudioMixer::floatToBytes(unsigned char* dst, float const origin, SampleFmt
 
     switch(fmt) {
         case S16P:
-            value = origin * 32768.0;
+            if (origin >= 1) {
+                value = 32767;
+            } else if (origin >= -1) {
+                value = origin * 32768.0;
+            } else {
+                value = -32768;
+            }
             *dst = value & 0xFF; 
             *(dst+1) = (value >> 8) & 0xFF;
             break;
-- 
2.43.0


From 79ca0d532a16bca7a017c616b7ae182cca39b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 36/47] fix: read mixed samples with the stride of their own
 format

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index eb10061..7c27403 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -110,8 +110,8 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
-    bytesPerSample = utils::getBytesPerSampleFromFormat(sampleFormat);
     fmt = frame->getSampleFmt();
+    bytesPerSample = utils::getBytesPerSampleFromFormat(fmt);
     nOfSamples = frame->getSamples();
 
     freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
-- 
2.43.0


From 9e068afc50db94e50a470ba304e7f685d70759f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 37/47] fix: the mixer read planes that input frames do not
 have

---
 src/modules/audioMixer/AudioMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 7c27403..601df6f 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -114,6 +114,11 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     bytesPerSample = utils::getBytesPerSampleFromFormat(fmt);
     nOfSamples = frame->getSamples();
 
+    if (!frame->isPlanar() || frame->getChannels() < (unsigned) channels) {
+        utils::errorMsg("[AudioMixer] Input frames must be planar and have all the mixed channels");
+        return false;
+    }
+
     freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
 
     if (freeSpaceInMixBuffer < nOfSamples) {
-- 
2.43.0


From f61bcf0fa2d0a7f891308012a887eac4a1baec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 38/47] fix: drop the samples of the previous timeline when the
 mixer resynchronises

---
 src/modules/audioMixer/AudioMixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 601df6f..17850e0 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -143,6 +143,10 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         rear = 0;
         syncTs = frame->getPresentationTime();
         absolutePosition = front;
+
+        for (int i = 0; i < channels; i++) {
+            memset(mixBuffers[i], 0, mixBufferMaxSamples*sizeof(float));
+        }
     }
 
     for (int i = 0; i < channels; i++) {
-- 
2.43.0


From 06f15c157a98afbb237a882552751b5d70534c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 39/47] fix: the mixer stopped for good when its 32 bit sample
 positions wrapped

---
 src/modules/audioMixer/AudioMixer.cpp | 4 ++--
 src/modules/audioMixer/AudioMixer.hh  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 17850e0..ef88d11 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -52,7 +52,7 @@ syncTs(std::chrono::microseconds(-1))
 AudioMixer::~AudioMixer() 
 {
     for (int i = 0; i < MAX_CHANNELS; i++) {
-        delete mixBuffers[i];
+        delete[] mixBuffers[i];
     }
 }
 
@@ -106,7 +106,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     SampleFmt fmt;
     unsigned nOfSamples;
     int bytesPerSample;
-    unsigned absolutePosition;
+    uint64_t absolutePosition;
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index df43e82..09cc6c9 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -145,8 +145,8 @@ private:
     int inputFrameSamples;
     SampleFmt sampleFormat;
     int maxMixingChannels;
-    unsigned front;
-    unsigned rear;
+    uint64_t front;
+    uint64_t rear;
 
     float masterGain;
     float th;  //Dynamic Range Compression algorithm threshold
-- 
2.43.0


From ca9cecae5d52763845f5c6846e7df4a9edcc113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:17 +0000
Subject: [PATCH 40/47] fix: a filter kept an empty reader when its
 configuration was refused

---
 src/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 47a93d2..624ffe7 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -130,7 +130,7 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
     std::shared_ptr<Reader> r (new Reader());
     
     if (!specificReaderConfig(readerID, queue)){
-        r.reset();
+        return NULL;
     }
     
     readers[readerID] = r;
-- 
2.43.0


From 4ccd911aed525129e7fc47426ece146961eb0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:17 +0000
Subject: [PATCH 41/47] fix: a refused connection leaked its queue

---
 src/Filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 624ffe7..6610d9e 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -353,6 +353,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     }
 
     if (!(r = R->setReader(readerID, queue))) {
+        delete queue;
         deleteWriter(writerID);
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
-- 
2.43.0


From baa914f56dd31be09849582006e6a33e3fe1cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:17 +0000
Subject: [PATCH 42/47] fix: shared readers could exceed the limit of the
 filter that gets them

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 6610d9e..a38c0fd 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -273,6 +273,11 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    if (shared->readers.count(sharedRId) <= 0 && shared->readers.size() >= shared->getMaxReaders()){
+        utils::errorMsg("The shared filter has no room for another reader!");
+        return false;
+    }
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
-- 
2.43.0


From f6bd247536fb3dc0e257b67c4dd98aeafb0e2627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 43/47] fix: Exp-Golomb codes with 31 or more leading zeros
 shifted out of range

bs_read_ue() computed (1 << i) - 1 in int with i up to 32: undefined from 31 on.
---
 src/modules/transmitter/SPSparser/bs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/bs.h b/src/modules/transmitter/SPSparser/bs.h
index c5087cd..d6a27b6 100644
--- a/src/modules/transmitter/SPSparser/bs.h
+++ b/src/modules/transmitter/SPSparser/bs.h
@@ -192,7 +192,7 @@ static inline uint32_t bs_read_u8(bs_t* b)
 
 static inline uint32_t bs_read_ue(bs_t* b)
 {
-    int32_t r = 0;
+    uint32_t r = 0;
     int i = 0;
 
     while( (bs_read_u1(b) == 0) && (i < 32) && (!bs_eof(b)) )
@@ -200,7 +200,7 @@ static inline uint32_t bs_read_ue(bs_t* b)
         i++;
     }
     r = bs_read_u(b, i);
-    r += (1 << i) - 1;
+    r += (uint32_t)(((uint64_t)1 << i) - 1);
     return r;
 }
 
-- 
2.43.0


From b05ea75b11b930484997d44ccdd864f55692f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 44/47] fix: large signed Exp-Golomb values were decoded with
 the wrong sign

The code number is unsigned; as an int it overflowed or turned negative from
2^31 - 1 on.
---
 src/modules/transmitter/SPSparser/bs.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/bs.h b/src/modules/transmitter/SPSparser/bs.h
index d6a27b6..db5699b 100644
--- a/src/modules/transmitter/SPSparser/bs.h
+++ b/src/modules/transmitter/SPSparser/bs.h
@@ -206,16 +206,13 @@ static inline uint32_t bs_read_ue(bs_t* b)
 
 static inline int32_t bs_read_se(bs_t* b) 
 {
-    int32_t r = bs_read_ue(b);
-    if (r & 0x01)
+    uint32_t v = bs_read_ue(b);
+    int32_t r = v/2;
+    if (v & 0x01)
     {
-        r = (r+1)/2;
+        return r == INT32_MAX ? INT32_MIN : r + 1;
     }
-    else
-    {
-        r = -(r/2);
-    }
-    return r;
+    return -r;
 }
 
 
-- 
2.43.0


From 592d524c97bc184cdfee55137192ff7e5536cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 45/47] fix: a parameter set could make the parser write behind
 offset_for_ref_frame

num_ref_frames_in_pic_order_cnt_cycle comes from the stream and was not
checked against the size of the array (at most 255 are allowed).
---
 src/modules/transmitter/SPSparser/h264_stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 0ccc58b..766e68e 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -160,6 +160,10 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
         sps->offset_for_non_ref_pic = bs_read_se(b);
         sps->offset_for_top_to_bottom_field = bs_read_se(b);
         sps->num_ref_frames_in_pic_order_cnt_cycle = bs_read_ue(b);
+        if( sps->num_ref_frames_in_pic_order_cnt_cycle < 0 || sps->num_ref_frames_in_pic_order_cnt_cycle > 255 )
+        {
+            return -1;
+        }
         for( i = 0; i < sps->num_ref_frames_in_pic_order_cnt_cycle; i++ )
         {
             sps->offset_for_ref_frame[ i ] = bs_read_se(b);
-- 
2.43.0


From fd3970a59316ec74180b0be23d370f3c2f703685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 46/47] fix: HRD parameters could make the parser write behind
 their arrays

cpb_cnt_minus1 comes from the stream and was not checked against the size of
the arrays; a parameter set with more than 32 entries is rejected now.
---
 .../transmitter/SPSparser/h264_stream.c       | 27 +++++++++++++++----
 .../transmitter/SPSparser/h264_stream.h       |  4 +--
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 766e68e..ebd915a 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -190,7 +190,10 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
     sps->vui_parameters_present_flag = bs_read_u1(b);
     if( sps->vui_parameters_present_flag )
     {
-        read_vui_parameters(sps, b);
+        if( read_vui_parameters(sps, b) < 0 )
+        {
+            return -1;
+        }
     }
     read_rbsp_trailing_bits(b);
 
@@ -223,7 +226,7 @@ void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int use
 }
 
 //Appendix E.1.1 VUI parameters syntax
-void read_vui_parameters(sps_t* sps, bs_t* b)
+int read_vui_parameters(sps_t* sps, bs_t* b)
 {
 
     sps->vui.aspect_ratio_info_present_flag = bs_read_u1(b);
@@ -270,12 +273,18 @@ void read_vui_parameters(sps_t* sps, bs_t* b)
     sps->vui.nal_hrd_parameters_present_flag = bs_read_u1(b);
     if( sps->vui.nal_hrd_parameters_present_flag )
     {
-        read_hrd_parameters(sps, b);
+        if( read_hrd_parameters(sps, b) < 0 )
+        {
+            return -1;
+        }
     }
     sps->vui.vcl_hrd_parameters_present_flag = bs_read_u1(b);
     if( sps->vui.vcl_hrd_parameters_present_flag )
     {
-        read_hrd_parameters(sps, b);
+        if( read_hrd_parameters(sps, b) < 0 )
+        {
+            return -1;
+        }
     }
     if( sps->vui.nal_hrd_parameters_present_flag || sps->vui.vcl_hrd_parameters_present_flag )
     {
@@ -293,15 +302,21 @@ void read_vui_parameters(sps_t* sps, bs_t* b)
         sps->vui.num_reorder_frames = bs_read_ue(b);
         sps->vui.max_dec_frame_buffering = bs_read_ue(b);
     }
+
+    return 0;
 }
 
 
 //Appendix E.1.2 HRD parameters syntax
-void read_hrd_parameters(sps_t* sps, bs_t* b)
+int read_hrd_parameters(sps_t* sps, bs_t* b)
 {
     int SchedSelIdx;
 
     sps->hrd.cpb_cnt_minus1 = bs_read_ue(b);
+    if( sps->hrd.cpb_cnt_minus1 < 0 || sps->hrd.cpb_cnt_minus1 > 31 )
+    {
+        return -1;
+    }
     sps->hrd.bit_rate_scale = bs_read_u(b,4);
     sps->hrd.cpb_size_scale = bs_read_u(b,4);
     for( SchedSelIdx = 0; SchedSelIdx <= sps->hrd.cpb_cnt_minus1; SchedSelIdx++ )
@@ -314,6 +329,8 @@ void read_hrd_parameters(sps_t* sps, bs_t* b)
     sps->hrd.cpb_removal_delay_length_minus1 = bs_read_u(b,5);
     sps->hrd.dpb_output_delay_length_minus1 = bs_read_u(b,5);
     sps->hrd.time_offset_length = bs_read_u(b,5);
+
+    return 0;
 }
 
 //7.3.2.11 RBSP trailing bits syntax
diff --git a/src/modules/transmitter/SPSparser/h264_stream.h b/src/modules/transmitter/SPSparser/h264_stream.h
index 99e134e..0de314f 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.h
+++ b/src/modules/transmitter/SPSparser/h264_stream.h
@@ -149,8 +149,8 @@ int nal_to_rbsp(const uint8_t* nal_buf, int* nal_size, uint8_t* rbsp_buf, int* r
 
 int read_seq_parameter_set_rbsp(sps_t* h, bs_t* b);
 void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int useDefaultScalingMatrixFlag );
-void read_vui_parameters(sps_t* h, bs_t* b);
-void read_hrd_parameters(sps_t* h, bs_t* b);
+int read_vui_parameters(sps_t* h, bs_t* b);
+int read_hrd_parameters(sps_t* h, bs_t* b);
 
 void read_rbsp_trailing_bits(bs_t* b);
 
-- 
2.43.0


From 7441e1e9b188af4054421d099ed06feb5301aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 47/47] fix: scaling lists were not read over, so everything
 behind them was misread

The lists of sps_t are never allocated, and read_scaling_list() returned
without consuming their bits. It reads them now and stores them only where
there is a list.
---
 src/modules/transmitter/SPSparser/h264_stream.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index ebd915a..8d01cbf 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -205,11 +205,6 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
 void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int useDefaultScalingMatrixFlag )
 {
     int j;
-    if(scalingList == NULL)
-    {
-        return;
-    }
-
     int lastScale = 8;
     int nextScale = 8;
     for( j = 0; j < sizeOfScalingList; j++ )
@@ -217,11 +212,14 @@ void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int use
         if( nextScale != 0 )
         {
             int delta_scale = bs_read_se(b);
-            nextScale = ( lastScale + delta_scale + 256 ) % 256;
+            nextScale = ( (uint32_t)lastScale + (uint32_t)delta_scale + 256 ) % 256;
             useDefaultScalingMatrixFlag = ( j == 0 && nextScale == 0 );
         }
-        scalingList[ j ] = ( nextScale == 0 ) ? lastScale : nextScale;
-        lastScale = scalingList[ j ];
+        lastScale = ( nextScale == 0 ) ? lastScale : nextScale;
+        if( scalingList != NULL )
+        {
+            scalingList[ j ] = lastScale;
+        }
     }
 }
 
-- 
2.43.0

