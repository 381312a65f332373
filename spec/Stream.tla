------------------------------- MODULE Stream -------------------------------
(* A streaming response: a producer (asynchronous or in worker threads) whose  *)
(* chunks are passed on one by one, racing with the client's departure, which  *)
(* the server announces as a disconnect message (old = TRUE: ASGI before 2.4)  *)
(* or by failing a send (old = FALSE).                                         *)
EXTENDS Str

InitState(cfg) == [old |-> cfg.old, bg |-> cfg.bg, made |-> <<>>, told |-> 0, started |-> FALSE, fin |-> FALSE,
                   prod |-> "idle", err |-> "", held |-> FALSE, gone |-> FALSE, calm |-> FALSE, lost |-> FALSE,
                   bgs |-> 0, over |-> FALSE, inhand |-> FALSE]

Ended(s) == s.prod \in {"ended", "raised", "cancelled"}

(* inhand: a worker thread was still producing when the client left; the one *)
(* thing it comes back with may still be handed to the server.                *)
(* all that can be told has been told *)
AllTold(s) == s.started /\ s.told = Len(s.made) /\ (s.prod = "ended" => s.fin)

MustReturn(s) == \/ s.prod = "raised"
                 \/ s.fin /\ ~s.held
                 \/ s.lost
                 \/ s.old /\ s.gone

Checks(s, e) ==
  CASE e.t = "step" ->   \* the producer is asked for more
         <<<<"producer-not-advanced-after-the-end", ~Ended(s) /\ s.prod = "idle" /\ ~s.over>>,
           <<"producer-not-advanced-after-the-client-left", ~s.lost /\ ~s.calm>>,
           <<"producer-advanced-only-when-its-chunks-are-sent", s.told = Len(s.made) /\ ~s.held>>>>
    [] e.t = "made" -> <<<<"producing", s.prod = "busy">>>>
    [] e.t = "prod" -> <<<<"producer-ends-once", ~Ended(s)>>,
                         <<"cancelled-only-if-the-client-left", e.how = "cancelled" => (s.old /\ s.gone)>>>>
    [] e.t = "told" ->
         <<<<"nothing-sent-after-the-client-left", ~s.lost /\ ~s.over /\ (s.calm => s.inhand)>>,
           <<"nothing-sent-after-the-final-message", ~s.fin>>,
           <<"one-send-at-a-time", ~s.held>>,
           <<"start-first-and-once", (e.k = "start") <=> ~s.started>>,
           <<"next-chunk", e.k = "chunk" => s.told < Len(s.made) /\ e.c = s.made[s.told + 1]>>,
           <<"final-after-everything", e.k = "final" => s.prod = "ended" /\ s.told = Len(s.made) /\ e.c = "">>>>
    [] e.t = "release" -> <<>>
    [] e.t = "lost" -> <<>>
    [] e.t = "gone" -> <<<<"listens-only-before-2.4", s.old>>>>
    [] e.t = "bg" -> <<<<"background-once", s.bgs = 0 /\ s.bg>>,
                       <<"background-after-the-response", s.fin \/ (s.old /\ s.gone)>>,
                       <<"no-background-after-a-failure", ~s.lost /\ s.prod # "raised">>>>
    [] e.t = "ret" ->
         <<<<"returns-once", ~s.over>>,
           <<"producer-not-left-running", s.prod # "busy">>,
           <<"returns-only-when-over", MustReturn(s)>>,
           <<"outcome", e.exc = CASE s.lost /\ s.old -> "OSError"
                                  [] s.lost -> "ClientDisconnect"
                                  [] s.prod = "raised" -> s.err
                                  [] OTHER -> "">>,
           <<"same-error-object", e.same>>,
           <<"background-ran", (s.bg /\ e.exc = "") => s.bgs = 1>>>>
    [] e.t = "quiet" ->
         <<<<"everything-produced-has-been-sent", (~s.held /\ ~s.over /\ ~s.lost) => AllTold(s)>>,
           <<"returned-when-over", (MustReturn(s) /\ ~(e.stuck /\ s.prod = "busy")) => s.over>>,
           <<"asked-for-more-when-all-is-sent", (~s.over /\ ~s.held /\ ~s.fin) => s.prod # "idle">>>>

Apply(s, e) ==
  CASE e.t = "step" -> [s EXCEPT !.prod = "busy"]
    [] e.t = "made" -> [s EXCEPT !.made = Append(@, e.c), !.prod = "idle"]
    [] e.t = "prod" -> [s EXCEPT !.prod = e.how, !.err = e.err]
    [] e.t = "told" -> [s EXCEPT !.started = TRUE, !.told = IF e.k = "chunk" THEN @ + 1 ELSE @,
                                 !.fin = e.k = "final", !.held = e.hold,
                                 !.inhand = IF s.calm THEN FALSE ELSE @]
    [] e.t = "release" -> [s EXCEPT !.held = FALSE]
    [] e.t = "lost" -> [s EXCEPT !.lost = TRUE, !.held = FALSE]
    [] e.t = "gone" -> [s EXCEPT !.gone = TRUE]
    [] e.t = "bg" -> [s EXCEPT !.bgs = @ + 1]
    [] e.t = "ret" -> [s EXCEPT !.over = TRUE, !.held = FALSE]
    [] e.t = "quiet" -> [s EXCEPT !.calm = s.old /\ s.gone, !.inhand = e.stuck]
=============================================================================
