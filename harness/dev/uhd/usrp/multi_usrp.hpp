// Stand-in for UHD's headers: the part the blocks use.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace uhd {
template <class T> class ref_vector { T p_{}; T* m_; size_t n_; public:
    template <class P> ref_vector(P* p) : p_(T(p)), m_(nullptr), n_(1) {}
    template <class V> ref_vector(const V& v) : m_((T*)(&v.front())), n_(v.size()) {}
    ref_vector(T* m, size_t n) : m_(m), n_(n) {}
    const T& operator[](size_t i) const { return m_ ? m_[i] : p_; } size_t size() const { return n_; } };
struct time_spec_t { double s = 0; time_spec_t(double v = 0) : s(v) {} int64_t get_full_secs() const { return (int64_t)s; } double get_frac_secs() const { return s - (double)(int64_t)s; } bool operator==(const time_spec_t& o) const { return s == o.s; } };
struct tune_request_t { double f; tune_request_t(double v = 0) : f(v) {} };
struct tune_result_t {};
struct meta_range_t { double a, b; double start() const { return a; } double stop() const { return b; } };
typedef meta_range_t freq_range_t; typedef meta_range_t gain_range_t;
struct stream_args_t { std::string cpu_format, otw_format; std::vector<size_t> channels; stream_args_t(const std::string& c = "", const std::string& o = "") : cpu_format(c), otw_format(o) {} };
struct stream_cmd_t { enum stream_mode_t { STREAM_MODE_START_CONTINUOUS = 'a', STREAM_MODE_STOP_CONTINUOUS = 'o' } mode; bool stream_now = true; stream_cmd_t(stream_mode_t m) : mode(m) {} };
struct rx_metadata_t { enum error_code_t { ERROR_CODE_NONE = 0, ERROR_CODE_TIMEOUT = 1, ERROR_CODE_LATE_COMMAND = 2, ERROR_CODE_BROKEN_CHAIN = 4, ERROR_CODE_OVERFLOW = 8, ERROR_CODE_ALIGNMENT = 12, ERROR_CODE_BAD_PACKET = 15 } error_code = ERROR_CODE_NONE; bool out_of_sequence = false; std::string strerror() const; };
struct tx_metadata_t { bool has_time_spec = false; time_spec_t time_spec; bool start_of_burst = false, end_of_burst = false; };
struct async_metadata_t { size_t channel = 0; bool has_time_spec = false; time_spec_t time_spec; enum event_code_t { EVENT_CODE_BURST_ACK = 1, EVENT_CODE_UNDERFLOW = 2, EVENT_CODE_SEQ_ERROR = 4, EVENT_CODE_TIME_ERROR = 8, EVENT_CODE_UNDERFLOW_IN_PACKET = 16, EVENT_CODE_SEQ_ERROR_IN_BURST = 32, EVENT_CODE_USER_PAYLOAD = 64 } event_code = EVENT_CODE_BURST_ACK; };
struct rx_streamer { typedef std::shared_ptr<rx_streamer> sptr; typedef ref_vector<void*> buffs_type; size_t nch; std::string fmt; uint64_t pos = 0; bool on = false; ~rx_streamer();
    size_t get_num_channels() const { return nch; } size_t get_max_num_samps() const; size_t recv(const buffs_type&, size_t, rx_metadata_t&, double = 0.1, bool = false); void issue_stream_cmd(const stream_cmd_t&); };
struct tx_streamer { typedef std::shared_ptr<tx_streamer> sptr; typedef ref_vector<const void*> buffs_type; size_t nch; std::string fmt; ~tx_streamer();
    size_t get_num_channels() const { return nch; } size_t get_max_num_samps() const; size_t send(const buffs_type&, size_t, const tx_metadata_t&, double = 0.1); bool recv_async_msg(async_metadata_t&, double = 0.1); };
namespace usrp {
struct multi_usrp { typedef std::shared_ptr<multi_usrp> sptr; static sptr make(const std::string&); multi_usrp(); ~multi_usrp();
    std::string get_mboard_name(size_t = 0); std::string get_pp_string(); size_t get_rx_num_channels(); size_t get_tx_num_channels();
    void set_rx_rate(double, size_t = ~(size_t)0); double get_rx_rate(size_t = 0); tune_result_t set_rx_freq(const tune_request_t&, size_t = 0); freq_range_t get_rx_freq_range(size_t = 0); void set_rx_gain(double, size_t = 0); gain_range_t get_rx_gain_range(size_t = 0); void set_rx_bandwidth(double, size_t = 0);
    void set_tx_rate(double, size_t = ~(size_t)0); double get_tx_rate(size_t = 0); tune_result_t set_tx_freq(const tune_request_t&, size_t = 0); freq_range_t get_tx_freq_range(size_t = 0); void set_tx_gain(double, size_t = 0); gain_range_t get_tx_gain_range(size_t = 0); void set_tx_bandwidth(double, size_t = 0);
    rx_streamer::sptr get_rx_stream(const stream_args_t&); tx_streamer::sptr get_tx_stream(const stream_args_t&);
    time_spec_t get_time_last_pps(size_t = 0); void set_time_next_pps(const time_spec_t&, size_t = 0); };
}
bool set_thread_priority_safe(float = 0.5f, bool = true);
}
