----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of connections: socket, parser goroutine, handler goroutine,   *)
(* the unbuffered channel between them, the acceptor, and a client that    *)
(* may send anything and vanish at any moment, with or without reading.    *)
(* Checked: once a client has gone everything the server held for it is    *)
(* released, whatever the interleaving; other connections still get        *)
(* served; a termination signal ends the process.                          *)
(*                                                                         *)
(* The constant Leak selects a defect for which TLC must find a violation: *)
(*   "none"       as implemented                                           *)
(*   "noread"     the parser does not end when the stream ends             *)
(*   "early"      the handler leaves without draining the parser (it still *)
(*                hands over one more message for which nobody waits)      *)
(*   "noclose"    the handler leaves without closing the socket            *)
(*   "inline"     the main loop serves the connection itself               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Conn, MaxSend, Leak

Item == {"cmd", "bad"}

VARIABLES
    client,     \* "new", "open", "half" (sending side ended), "gone"
    inq,        \* bytes on their way to the server (as items)
    unread,     \* replies the client has not taken
    sock,       \* server side: "none", "queued", "open", "closed"
    parser,     \* "none", "read", "give" (blocked on the channel), "done"
    msg,        \* what the parser is handing over
    handler,    \* "none", "wait", "exec", "write", "done"
    sentn,      \* how much each client has sent
    sig, main   \* termination requested; main loop "run", "busy", "exit"

vars == <<client, inq, unread, sock, parser, msg, handler, sentn, sig, main>>

Cap == 2        \* replies that fit into the socket buffers

Init == /\ client = [c \in Conn |-> "new"]
        /\ inq = [c \in Conn |-> <<>>]
        /\ unread = [c \in Conn |-> 0]
        /\ sock = [c \in Conn |-> "none"]
        /\ parser = [c \in Conn |-> "none"]
        /\ msg = [c \in Conn |-> "none"]
        /\ handler = [c \in Conn |-> "none"]
        /\ sentn = [c \in Conn |-> 0]
        /\ sig = FALSE
        /\ main = "run"

\* ---------------------------------------------------------------- clients
Connect(c) == /\ client[c] = "new" /\ main # "exit"
              /\ client' = [client EXCEPT ![c] = "open"]
              /\ sock' = [sock EXCEPT ![c] = "queued"]
              /\ UNCHANGED <<inq, unread, parser, msg, handler, sentn, sig, main>>
Send(c, x) == /\ client[c] = "open" /\ sentn[c] < MaxSend
              /\ inq' = [inq EXCEPT ![c] = Append(@, x)]
              /\ sentn' = [sentn EXCEPT ![c] = @ + 1]
              /\ UNCHANGED <<client, unread, sock, parser, msg, handler, sig, main>>
Take(c) == /\ client[c] \in {"open", "half"} /\ unread[c] > 0
           /\ unread' = [unread EXCEPT ![c] = @ - 1]
           /\ UNCHANGED <<client, inq, sock, parser, msg, handler, sentn, sig, main>>
HalfClose(c) == /\ client[c] = "open"
                /\ client' = [client EXCEPT ![c] = "half"]
                /\ UNCHANGED <<inq, unread, sock, parser, msg, handler, sentn, sig, main>>
Vanish(c) == /\ client[c] \in {"open", "half"}
             /\ client' = [client EXCEPT ![c] = "gone"]
             /\ \/ inq' = inq                               \* what was sent still arrives
                \/ inq' = [inq EXCEPT ![c] = <<>>]           \* torn down
             /\ unread' = [unread EXCEPT ![c] = 0]
             /\ UNCHANGED <<sock, parser, msg, handler, sentn, sig, main>>

\* ---------------------------------------------------------------- server
Accept(c) == /\ sock[c] = "queued" /\ main = "run"
             /\ sock' = [sock EXCEPT ![c] = "open"]
             /\ parser' = [parser EXCEPT ![c] = "read"]
             /\ handler' = [handler EXCEPT ![c] = "wait"]
             /\ main' = IF Leak = "inline" THEN "busy" ELSE "run"
             /\ UNCHANGED <<client, inq, unread, msg, sentn, sig>>

Ended(c) == client[c] \in {"half", "gone"} \/ sock[c] = "closed"

ParserRead(c) ==
    /\ parser[c] = "read"
    /\ \/ /\ inq[c] # <<>> /\ sock[c] # "closed"
          /\ msg' = [msg EXCEPT ![c] = Head(inq[c])]
          /\ inq' = [inq EXCEPT ![c] = Tail(@)]
          /\ parser' = [parser EXCEPT ![c] = "give"]
       \/ /\ (inq[c] = <<>> \/ sock[c] = "closed") /\ Ended(c) /\ Leak # "noread"
          /\ msg' = [msg EXCEPT ![c] = "eof"]
          /\ inq' = inq
          /\ parser' = [parser EXCEPT ![c] = "give"]
    /\ UNCHANGED <<client, unread, sock, handler, sentn, sig, main>>

(* the channel is unbuffered: both sides meet.  After an error the parser
   closes the channel and ends. *)
Meet(c) ==
    /\ parser[c] = "give" /\ handler[c] = "wait"
    /\ parser' = [parser EXCEPT ![c] = IF msg[c] = "cmd" THEN "read" ELSE IF msg[c] = "bad" /\ Leak = "early" THEN "give" ELSE "done"]
    /\ handler' = [handler EXCEPT ![c] = IF msg[c] = "cmd" THEN "exec" ELSE "leave"]
    /\ msg' = [msg EXCEPT ![c] = IF msg[c] = "bad" /\ Leak = "early" THEN "eof" ELSE "none"]
    /\ UNCHANGED <<client, inq, unread, sock, sentn, sig, main>>

Exec(c) == /\ handler[c] = "exec"
           /\ handler' = [handler EXCEPT ![c] = "write"]
           /\ UNCHANGED <<client, inq, unread, sock, parser, msg, sentn, sig, main>>
Write(c) == /\ handler[c] = "write"
            /\ \/ client[c] = "gone" /\ unread' = unread                     \* fails
               \/ client[c] # "gone" /\ unread[c] < Cap /\ unread' = [unread EXCEPT ![c] = @ + 1]
            /\ handler' = [handler EXCEPT ![c] = "wait"]
            /\ UNCHANGED <<client, inq, sock, parser, msg, sentn, sig, main>>
Leave(c) == /\ handler[c] = "leave"
            /\ handler' = [handler EXCEPT ![c] = "done"]
            /\ sock' = IF Leak = "noclose" THEN sock ELSE [sock EXCEPT ![c] = "closed"]
            /\ main' = IF main = "busy" THEN "run" ELSE main
            /\ UNCHANGED <<client, inq, unread, parser, msg, sentn, sig>>
Signal == /\ ~sig /\ sig' = TRUE
          /\ UNCHANGED <<client, inq, unread, sock, parser, msg, handler, sentn, main>>
Exit == /\ sig /\ main = "run" /\ main' = "exit"
        /\ UNCHANGED <<client, inq, unread, sock, parser, msg, handler, sentn, sig>>

Server(c) == main # "exit" /\ (Accept(c) \/ ParserRead(c) \/ Meet(c) \/ Exec(c) \/ Write(c) \/ Leave(c))
Client(c) == Connect(c) \/ (\E x \in Item : Send(c, x)) \/ Take(c) \/ HalfClose(c) \/ Vanish(c)
Next == \/ \E c \in Conn : Server(c) \/ Client(c)
        \/ Signal
        \/ Exit
Spec == Init /\ [][Next]_vars /\ \A c \in Conn : WF_vars(Server(c)) /\ WF_vars(Exit)

----------------------------------------------------------------------------
Released(c) == sock[c] = "closed" /\ parser[c] = "done" /\ handler[c] = "done"
(* never a closed socket under a handler that still works *)
Order == \A c \in Conn : sock[c] = "closed" => handler[c] = "done"
ReleasedAfterwards == \A c \in Conn : client[c] = "gone" ~> Released(c) \/ main = "exit"
(* one who waits for its replies is served, whatever the others do *)
Served == \A c \in Conn : handler[c] = "exec" ~> handler[c] # "exec" \/ main = "exit"
Accepted == \A c \in Conn : sock[c] = "queued" ~> sock[c] # "queued" \/ main = "exit"
Terminates == sig ~> main = "exit"
=============================================================================
