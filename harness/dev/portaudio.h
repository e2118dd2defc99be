// Stand-in for PortAudio's header: the part the block uses.
#pragma once
typedef int PaError; typedef int PaDeviceIndex; typedef void PaStream; typedef unsigned long PaSampleFormat; typedef double PaTime;
enum { paNoError = 0, paNotInitialized = -10000, paUnanticipatedHostError = -9999, paOutputUnderflowed = -9980, paDeviceUnavailable = -9985 };
#define paNoDevice ((PaDeviceIndex)-1)
#define paFloat32 ((PaSampleFormat)1)
#define paFramesPerBufferUnspecified 0
#define paClipOff 1ul
struct PaStreamParameters { PaDeviceIndex device; int channelCount; PaSampleFormat sampleFormat; PaTime suggestedLatency; void* hostApiSpecificStreamInfo; };
struct PaDeviceInfo { int structVersion; const char* name; int maxOutputChannels; PaTime defaultHighOutputLatency; };
struct PaStreamCallbackTimeInfo; 
extern "C" {
PaError Pa_Initialize(); PaError Pa_Terminate(); const char* Pa_GetErrorText(PaError); PaDeviceIndex Pa_GetDeviceCount(); PaDeviceIndex Pa_GetDefaultOutputDevice(); const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex);
PaError Pa_OpenStream(PaStream**, const PaStreamParameters*, const PaStreamParameters*, double, unsigned long, unsigned long, void*, void*);
PaError Pa_StartStream(PaStream*); PaError Pa_StopStream(PaStream*); PaError Pa_AbortStream(PaStream*); PaError Pa_CloseStream(PaStream*); PaError Pa_WriteStream(PaStream*, const void*, unsigned long); signed long Pa_GetStreamWriteAvailable(PaStream*);
}
