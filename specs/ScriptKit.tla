------------------------------ MODULE ScriptKit -----------------------------
(* Histories of a model are written to the file named by SCRIPTS, one JSON   *)
(* record per line, to be replayed against the implementation.               *)
EXTENDS Sequences, TLC, Json, IOUtils

EmitScript(script) ==
    "SCRIPTS" \in DOMAIN IOEnv =>
      Serialize(ToJson([script |-> script]) \o "\n", IOEnv.SCRIPTS,
        [format |-> "TXT", charset |-> "UTF-8",
         openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
