# ruby prog.rb SEED COUNT DIR: runs COUNT random chains of calls that end in an exception, prints one
# line of JSON for each: the report as the interpreter prints it, and what the locations of its backtrace say.
require 'json'
require 'base64'
require 'forwardable'
require 'delegate'
R = Random.new(ARGV[0].to_i)
DIR = ARGV[2]
def pick(a) = a[R.rand(a.size)]
class Mine < StandardError; end
module Outer; class Inner < IOError; end; end
class Detailed < StandardError; def detailed_message(highlight: false, **) = "#{super}\n  more (x)\n"; end
class Ünï < ArgumentError; end
FILES = ['a.rb', 'b c.rb', 'q(1).rb', 'x:3.rb', 'ü.rb', "it's.rb", '<z>.rb', 'noext', '(eval)', 'in x.rb', 'from y.rb']
MSGS = ['x', 'a: b', "two\nlines", "tab\there", "\tfrom nowhere", "see\n\tbelow", 'f (x)', 'f (Xyz) y', "trailing\n", "a\n\nb\n", 'in `z\'', ' ', "über", "(", ")", "call f(y)\ncall g(z)", "line (x)\nline (y)"]
EXC = %w[RuntimeError ArgumentError Mine Outer::Inner Errno::ENOENT KeyError Ünï Interrupt NotImplementedError Detailed StopIteration]
def failure
  m = pick(MSGS).inspect
  case R.rand(3)
  when 0 then "raise #{m}"
  when 1 then "raise #{pick(EXC)}, #{m}"
  else pick(["1 / 0", "nil.foo", "undefined_thing", "[].fetch(9)", "{}.fetch(:k)", "Integer('x')", "'a' + 1", "[3, 'a'].sort", "Undefined::Const", "File.read('/nonexistent/(x)')", "throw :zork", "[].first(-1)", "def q(x); end; q", "nil + 1", "Object.new.instance_eval { @a.b }",
             "'x'.freeze << 'y'", "[1].frezze", "Struct.new(:a).new(1, 2)", "BasicObject.new.inspect", "loop { raise StopIteration }; raise 'after'", "raise 'x' rescue raise Mine, 'again'", "begin; raise 'inner'; rescue => e; raise Outer::Inner, 'outer'; end",
             "begin; nil.foo; rescue => e; raise Mine; end", "raise Mine, 'with cause', cause: KeyError.new('c')", "exit(3)", "eval('1 +')", "require 'nonexistent/lib'", "Comparable.instance_method(:clamp).bind(3).call(2, 1)", "def rr; rr; end; rr", "'x'.send(:puts2)", "private_m(1)",
             "Fiber.yield", "raise Class.new(Mine) { def self.name = 'Named' }, 'x'", "Float('1e')", "%w[a].each_slice(0)"])
  end
end
def program
  code, call = +'', failure
  (1 + R.rand(6)).times do |k|
    f = pick(%w[foo bar? baz! ünï _x]) + ''
    f = f.sub(/([?!]?)\z/, "#{k}\\1")
    nxt = f
    case R.rand(32)
    when 0 then code << "def #{f}\n  #{call}\nend\n"
    when 1 then code << "def #{f} = [1].each { #{call} }\n"
    when 2 then code << "def #{f}\n  [1].map do |x|\n    [2].each { |y| #{call} }\n  end\nend\n"
    when 3 then code << "class C#{k}\n  def m\n    #{call}\n  end\n  def self.s; #{call}; end\n  def +(o) = (#{call})\n  def [](i); #{call}; end\n  def <=>(o); #{call}; end\n  def -@; #{call}; end\n  def call; #{call}; end\n  def w=(x); #{call}; end\n  def !; #{call}; end\n  def =~(o); #{call}; end\n  def <<(o) = [1].each { #{call} }\nend\n"
      nxt = pick(["C#{k}.new.m", "C#{k}.s", "(C#{k}.new + 1)", "C#{k}.new[2]", "(C#{k}.new <=> 2)", "(-C#{k}.new)", "C#{k}.new.()", "(C#{k}.new.w = 1)", "(!C#{k}.new)", "(C#{k}.new =~ 1)", "(C#{k}.new << 3)"])
    when 4 then code << "def #{f}\n  begin\n    raise 'first'\n  rescue\n    #{call}\n  end\nend\n"
    when 5 then code << "def #{f}\n  begin\n    1\n  ensure\n    #{call}\n  end\nend\n"
    when 6 then code << "def #{f}\n  [1].each { begin; raise KeyError, 'k'; rescue KeyError; #{call}; end }\nend\n"
    when 7 then code << "define_method(:dm#{k}) { #{call} }\n"; nxt = "dm#{k}"
    when 8 then code << "L#{k} = ->(x = 1) { #{call} }\n"; nxt = pick(["L#{k}.call", "L#{k}.()", "[1].each(&L#{k})"])
    when 9 then nxt = "eval(#{call.inspect})"
    when 10 then nxt = "instance_eval { #{call} }"
    when 11 then code << "class M#{k}\n  def method_missing(n, *a); #{call}; end\n  def respond_to_missing?(*) = false\nend\n"; nxt = "M#{k}.new.zork"
    when 12 then code << "def #{f}\n  yield\nend\n"; nxt = "#{f} { #{call} }"
    when 13 then code << "class E#{k}\n  include Enumerable\n  def each; yield 1; #{call}; end\nend\n"; nxt = pick(["E#{k}.new.to_a", "E#{k}.new.sum", "E#{k}.new.sort_by { 1 }"])
    when 14 then nxt = "[2, 1].sort { |a, b| #{call} }"
    when 15 then nxt = "Class.new { #{call} }"
    when 16 then code << "def #{f}\n  class << self\n    X#{k} = 1\n  end\n  Module.new { |m| #{call} }\nend\n"
    when 17 then nxt = "Fiber.new { #{call} }.resume"
    when 18 then nxt = "Thread.new { Thread.current.report_on_exception = false; #{call} }.value"
    when 19 then nxt = "'abc'.gsub(/b/) { #{call} }"
    when 20 then nxt = "Hash.new { |h, q| #{call} }[:x]"
    when 21 then nxt = "1.upto(2) { |i| 3.times { #{call} } }"
    when 22 then code << "def #{f}(n = #{R.rand(20)}) = n == 0 ? (#{call}) : #{f}(n - 1)\n"
    when 23 then code << "def #{f}\n  while true\n    #{call}\n  end\nend\n"
    when 24 then code << "S#{k} = Struct.new(:a) do\n  def to_s; #{call}; end\nend\n"; nxt = "\"\#{S#{k}.new(1)}\""
    when 25 then nxt = "proc { #{call} }.call"
    when 26 then code << "def #{f}(&b) = b.call\n"; nxt = "#{f} { begin; raise 'q'; rescue => e; #{call}; end }"
    when 27 then nxt = "public_send(:instance_exec) { #{call} }"
    when 28 then nxt = "begin; #{call}; rescue TypeError, NameError => e; raise Mine, 'wrapped'; end"
    when 29 then nxt = "[[1, 2]].each_with_object([]) { |(a, b), c| #{call} }"
    when 30 then code << "module Mod#{k}\n  module_function\n  def mf; #{call}; end\n  def self.ms; tap { #{call} }; end\nend\n"; nxt = pick(["Mod#{k}.mf", "Mod#{k}.ms"])
    when 31 then nxt = "(#{call}\n)"
    end
    call = nxt
  end
  code + call + "\n"
end
n = ARGV[1].to_i
n.times do
  source = program
  file = pick([File.join(DIR, pick(FILES)), pick(FILES)])
  begin
    if file.start_with?('/')
      File.write(file, source)
      load(file)
    else
      eval(source, TOPLEVEL_BINDING, file, 1 + R.rand(70))
    end
    next
  rescue Exception => e
    next if !e.backtrace_locations || e.message.empty?
    # the cause of an exception with a single frame cannot be told from further lines of the message
    next if e.backtrace.size == 1 && e.cause
    locs = e.backtrace_locations.map { |l| [l.path, l.lineno, l.label] }
    text = e.full_message(highlight: false, order: :top)
    # the format of the crash reporter, which has the class behind the whole message
    short = "#{e.backtrace[0]}: #{e.message} (#{e.class})\n" + e.backtrace[1..].map { |l| "\tfrom #{l}" }.join("\n")
    b = ->(s) { Base64.strict_encode64(s.dup.force_encoding('BINARY')) }
    puts JSON.generate({ text: b[text], short: b[short], name: b[e.class.to_s], locs: locs.map { |a, l, c| [b[a || ''], l, b[c]] }, source: b[source], message: b[e.message] })
  end
end
