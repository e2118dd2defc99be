// Stand-in for the CaribouLite C++ API: the part the block uses.
#pragma once
#include <complex>
#include <cstddef>
#include <string>
#include <vector>
struct CaribouLiteFreqRange { float a, b; float fmin() const { return a; } float fmax() const { return b; } };
struct CaribouLiteRadio {
    enum RadioType { S1G = 0, HiF = 1 };
    std::vector<CaribouLiteFreqRange> GetFrequencyRange(); float GetRxSampleRateMax(); float GetRxSampleRateMin(); size_t GetNativeMtuSample();
    void SetFrequency(float); void SetRxSampleRate(float); void SetAgc(bool); void SetRxGain(float); void StartReceiving(); void StopReceiving();
    int ReadSamples(std::complex<float>*, size_t); int ReadSamples(std::complex<short>*, size_t);
};
struct CaribouLite {
    enum SysVersion { v = 0 };
    static bool DetectBoard(SysVersion*, std::string&, std::string&); static std::string GetSystemVersionStr(SysVersion); static CaribouLite& GetInstance(bool = false);
    CaribouLiteRadio* GetRadioChannel(CaribouLiteRadio::RadioType);
};
