// Stand-in for SoapySDR's header: the part the blocks use.
#pragma once
#include <complex>
#include <map>
#include <string>
#include <vector>
#define SOAPY_SDR_TX 0
#define SOAPY_SDR_RX 1
namespace SoapySDR {
typedef std::map<std::string, std::string> Kwargs; typedef std::vector<Kwargs> KwargsList; std::string KwargsToString(const Kwargs&);
struct Range { double a, b; double minimum() const { return a; } double maximum() const { return b; } double step() const { return 0; } }; typedef std::vector<Range> RangeList;
struct Stream;
class Device {
public:
    static KwargsList enumerate(); static Device* make(const std::string&); static Device* make(const Kwargs&); static void unmake(Device*);
    std::string getDriverKey() const; std::string getHardwareKey() const;
    std::vector<std::string> listAntennas(int, size_t) const; void setAntenna(int, size_t, const std::string&); std::string getAntenna(int, size_t) const;
    bool hasDCOffsetMode(int, size_t) const; void setDCOffsetMode(int, size_t, bool); bool hasDCOffset(int, size_t) const; void setDCOffset(int, size_t, const std::complex<double>&); bool hasIQBalance(int, size_t) const; void setIQBalance(int, size_t, const std::complex<double>&);
    std::vector<std::string> listGains(int, size_t) const; bool hasGainMode(int, size_t) const; void setGainMode(int, size_t, bool); void setGain(int, size_t, double); Range getGainRange(int, size_t) const; Range getGainRange(int, size_t, const std::string&) const;
    void setFrequency(int, size_t, double, const Kwargs& = Kwargs()); RangeList getFrequencyRange(int, size_t) const; void setSampleRate(int, size_t, double); RangeList getSampleRateRange(int, size_t) const; void setBandwidth(int, size_t, double); double getBandwidth(int, size_t) const; RangeList getBandwidthRange(int, size_t) const;
    Stream* setupStream(int, const std::string&, const std::vector<size_t>& = std::vector<size_t>(), const Kwargs& = Kwargs()); void closeStream(Stream*); size_t getStreamMTU(Stream*) const; int activateStream(Stream*, int = 0, long long = 0, size_t = 0); int deactivateStream(Stream*, int = 0, long long = 0);
    int readStream(Stream*, void* const*, size_t, int&, long long&, long = 100000); int writeStream(Stream*, const void* const*, size_t, int&, long long = 0, long = 100000);
    int dir = -1;
};
}
