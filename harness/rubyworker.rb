# Runs report cases through the Ruby bindings on the instrumented library; one JSON line per case on stdin, one on stdout.
require 'json'
$LOAD_PATH.unshift ENV['SATYR_RUBY']
require 'satyr'

module San
  extend ::FFI::Library
  ffi_lib ::FFI::CURRENT_PROCESS
  attach_function :__sanitizer_get_current_allocated_bytes, [], :size_t
end

OUT = STDOUT.dup
OUT.binmode
STDOUT.reopen(STDERR)
def b64(s) = s.nil? ? nil : [s.b].pack('m0')
def try
  yield
rescue Satyr::SatyrError => e
  ['E', b64(e.message)]
rescue StandardError => e
  [e.class.name, b64(e.message)]
end

def options(q)
  o = {}
  o[:frames] = q['frames'] if q.key? 'frames'
  o[:prefix] = q['prefix'].unpack1('m').force_encoding('UTF-8') if q.key? 'prefix'
  f = q['flags']
  o[:flags] = f.is_a?(String) ? f.to_sym : f if q.key? 'flags'
  o
end

def collect(c) = (GC.start if c['gc'])

def run_case(c)
  text = c['text'].unpack1('m')
  text = text.force_encoding('UTF-8') if c['utf8']
  report = try { Satyr::Report.new(text) }
  return { 'report' => report } if report.is_a? Array
  st = try { report.stacktrace }
  again = c['twice'] ? try { report.stacktrace } : nil
  report = nil if c['drop']
  collect c
  return { 'report' => true, 'st' => st } if st.nil? || st.is_a?(Array)
  th = try { st.find_crash_thread }
  if again.is_a? Satyr::Stacktrace
    st = nil
    collect c
    th = try { again.find_crash_thread }
  end
  st = nil if c['drop']
  collect c
  return { 'report' => true, 'st' => true, 'thread' => th } if th.is_a? Array
  hs = c['queries'].map { |q| try { b64(q.empty? ? th.duphash : th.duphash(options(q))) } }
  { 'report' => true, 'st' => true, 'thread' => true, 'hash' => hs }
end

def deep_case(c) = run_case(c)

STDIN.each_line do |l|
  c = JSON.parse(l)
  if c['surface']
    r = { 'priv' => [Satyr::Stacktrace, Satyr::Thread].map { |k| begin; k.new(nil); 'made'; rescue NoMethodError; 'private'; end } }
  else
    r = deep_case(c)
    if c['leak']
      marks = Array.new(c['leak'], 0)
      3.times { deep_case(c); GC.start }
      c['leak'].times do |i|
        20.times { deep_case(c) }
        GC.start
        GC.start
        marks[i] = San.__sanitizer_get_current_allocated_bytes
      end
      r['marks'] = marks
    end
  end
  OUT.write(JSON.generate(r) + "\n")
  OUT.flush
end
