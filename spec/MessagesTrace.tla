---------------------------- MODULE MessagesTrace ----------------------------
EXTENDS Messages, TraceBase
QInit(cfg) == [n |-> 0]
QStep(cfg, p, e) ==
  {[s |-> p, bad |->
    CASE e.e = "panic" -> {<<"ANY", "the code panicked">>}
      [] e.e = "msg" -> MsgBad(cfg, e)
      [] e.e = "rawmsg" -> RawMsgBad(cfg, e)
      [] e.e = "pay" -> PayBad(e)
      [] e.e = "send" -> SendBad(cfg, e)
      [] e.e = "info" -> InfoBad(e)
      [] e.e = "error" -> ErrorBad(e)]}
=============================================================================
