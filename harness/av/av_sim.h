// Stand-in for FFmpeg's demuxer, decoder and resampler: the calls and the contracts the audio file
// source depends on.  harness/afile.cpp implements them.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#ifdef __cplusplus
extern "C" {
#endif
#define LIBAVCODEC_VERSION_MAJOR 60
#define AVERROR(e) (-(e))
#define AVERROR_EOF (-541478725)
#define AVERROR_INVALIDDATA (-1094995529)
#define AV_ERROR_MAX_STRING_SIZE 64
#define AV_CH_LAYOUT_MONO 4
#define AV_CH_LAYOUT_STEREO 3
#define AV_CH_LAYOUT_QUAD 0x33
#define AV_CH_LAYOUT_5POINT1 0x60f
#define AVSEEK_FLAG_BACKWARD 1
#define AV_NOPTS_VALUE ((int64_t)UINT64_C(0x8000000000000000))
enum AVMediaType { AVMEDIA_TYPE_VIDEO, AVMEDIA_TYPE_AUDIO };
enum AVSampleFormat { AV_SAMPLE_FMT_NONE = -1, AV_SAMPLE_FMT_U8, AV_SAMPLE_FMT_S16, AV_SAMPLE_FMT_S32, AV_SAMPLE_FMT_FLT, AV_SAMPLE_FMT_DBL, AV_SAMPLE_FMT_U8P, AV_SAMPLE_FMT_S16P, AV_SAMPLE_FMT_S32P, AV_SAMPLE_FMT_FLTP };
enum AVCodecID { AV_CODEC_ID_NONE, AV_CODEC_ID_SIM };
enum AVChannelOrder { AV_CHANNEL_ORDER_UNSPEC, AV_CHANNEL_ORDER_NATIVE, AV_CHANNEL_ORDER_CUSTOM };
typedef struct AVChannelLayout { enum AVChannelOrder order; int nb_channels; union { uint64_t mask; void* map; } u; void* opaque; } AVChannelLayout;
void av_channel_layout_default(AVChannelLayout*, int);
void av_channel_layout_uninit(AVChannelLayout*);
int av_channel_layout_copy(AVChannelLayout*, const AVChannelLayout*);
typedef struct AVCodecParameters { enum AVCodecID codec_id; int sample_rate; AVChannelLayout ch_layout; } AVCodecParameters;
typedef struct AVStream { int index; AVCodecParameters* codecpar; } AVStream;
typedef struct AVFormatContext { unsigned nb_streams; AVStream** streams; } AVFormatContext;
typedef struct AVCodec { enum AVCodecID id; } AVCodec;
typedef struct AVCodecContext { AVChannelLayout ch_layout; int sample_rate; enum AVSampleFormat sample_fmt; } AVCodecContext;
typedef struct AVPacket { uint8_t* data; int size; int stream_index; int64_t pts; } AVPacket;
typedef struct AVFrame { uint8_t* data[8]; uint8_t** extended_data; int nb_samples; int sample_rate; int64_t pts; AVChannelLayout ch_layout; } AVFrame;
typedef struct SwrContext SwrContext;
typedef struct AVDictionary AVDictionary;
typedef struct AVInputFormat AVInputFormat;
int av_strerror(int, char*, size_t);
int avformat_open_input(AVFormatContext**, const char*, const AVInputFormat*, AVDictionary**);
int avformat_find_stream_info(AVFormatContext*, AVDictionary**);
void avformat_close_input(AVFormatContext**);
int av_find_best_stream(AVFormatContext*, enum AVMediaType, int, int, const AVCodec**, int);
int av_read_frame(AVFormatContext*, AVPacket*);
int av_seek_frame(AVFormatContext*, int, int64_t, int);
int avformat_seek_file(AVFormatContext*, int, int64_t, int64_t, int64_t, int);
const AVCodec* avcodec_find_decoder(enum AVCodecID);
AVCodecContext* avcodec_alloc_context3(const AVCodec*);
void avcodec_free_context(AVCodecContext**);
int avcodec_parameters_to_context(AVCodecContext*, const AVCodecParameters*);
int avcodec_open2(AVCodecContext*, const AVCodec*, AVDictionary**);
int avcodec_send_packet(AVCodecContext*, const AVPacket*);
int avcodec_receive_frame(AVCodecContext*, AVFrame*);
void avcodec_flush_buffers(AVCodecContext*);
AVPacket* av_packet_alloc(void);
void av_packet_free(AVPacket**);
void av_packet_unref(AVPacket*);
AVFrame* av_frame_alloc(void);
void av_frame_free(AVFrame**);
void av_frame_unref(AVFrame*);
int swr_alloc_set_opts2(SwrContext**, const AVChannelLayout*, enum AVSampleFormat, int, const AVChannelLayout*, enum AVSampleFormat, int, int, void*);
SwrContext* swr_alloc_set_opts(SwrContext*, int64_t, enum AVSampleFormat, int, int64_t, enum AVSampleFormat, int, int, void*);
int swr_init(SwrContext*);
int swr_is_initialized(SwrContext*);
void swr_free(SwrContext**);
void swr_close(SwrContext*);
int swr_convert(SwrContext*, uint8_t**, int, const uint8_t**, int);
int swr_get_out_samples(SwrContext*, int);
int64_t swr_get_delay(SwrContext*, int64_t);
#ifdef __cplusplus
}
#endif
