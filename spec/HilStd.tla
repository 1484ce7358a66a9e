------------------------------- MODULE HilStd -------------------------------
(* What the standard macros of the input language (include/builtin.hil) do, as a program for the machine of Hil.tla: the file of the
   implementation may be written differently as long as programs that use the macros cannot tell. *)
EXTENDS Sequences
Standard ==
     "newline = {" \o "\n"
  \o "}" \o "\n"
  \o "" \o "\n"
  \o "false = 0" \o "\n"
  \o "true = 1" \o "\n"
  \o "" \o "\n"
  \o "hexed_loop_depth = 0" \o "\n"
  \o "while = {}" \o "\n"
  \o "do = {}" \o "\n"
  \o "loop = {" \o "\n"
  \o "    hexed_loop_depth = hexed_loop_depth + 1" \o "\n"
  \o "    $({hexed_loop_while}   + hexed_loop_depth) = while" \o "\n"
  \o "    $({hexed_loop_do}      + hexed_loop_depth) = do" \o "\n"
  \o "    $({hexed_loop_wrapper} + hexed_loop_depth) = {" \o "\n"
  \o "        hexed_loop_case0 = {hexed_loop_wrapper}+ hexed_loop_depth +{ = {}}" \o "\n"
  \o "        hexed_loop_case1 = hexed_loop_do}+ hexed_loop_depth +{" \o "\n"
  \o "        $$({hexed_loop_case} + (($hexed_loop_while}+ hexed_loop_depth +{) != 0))" \o "\n"
  \o "        $hexed_loop_wrapper}+ hexed_loop_depth" \o "\n"
  \o "    $$({hexed_loop_wrapper} + hexed_loop_depth)" \o "\n"
  \o "    hexed_loop_depth = hexed_loop_depth - 1" \o "\n"
  \o "    while = {}" \o "\n"
  \o "    do = {}" \o "\n"
  \o "}" \o "\n"
  \o "" \o "\n"
  \o "split_i = 0" \o "\n"
  \o "split_str = {}" \o "\n"
  \o "split_at = {split_i == 0}" \o "\n"
  \o "split_first = {}" \o "\n"
  \o "split_rest = {}" \o "\n"
  \o "split = {" \o "\n"
  \o "    split_first = {}" \o "\n"
  \o "    split_i = 0" \o "\n"
  \o "    while = {!$split_at}" \o "\n"
  \o "    do = {split_first = split_first + split_str#split_i; split_i = split_i + 1}" \o "\n"
  \o "    $loop" \o "\n"
  \o "    split_rest = {}" \o "\n"
  \o "    while = {split_i < #split_str}" \o "\n"
  \o "    do = {split_rest = split_rest + split_str#split_i; split_i = split_i + 1}" \o "\n"
  \o "    $loop" \o "\n"
  \o "}" \o "\n"
  \o "" \o "\n"
  \o "hexed_quit_repl = false" \o "\n"
  \o "quit = {hexed_quit_repl = true; {}}" \o "\n"
  \o "repl = {" \o "\n"
  \o "    while = {!hexed_quit_repl}" \o "\n"
  \o "    do = {" \o "\n"
  \o "        except = {println exception;}" \o "\n"
  \o "        print {#+^$ }" \o "\n"
  \o "        hexed_repl_cmd = ask" \o "\n"
  \o "        hexed_result = {}" \o "\n"
  \o "        {basically reimplement the conditional to avoid overwriting `if`/`then`/`else`}" \o "\n"
  \o "        hexed_result = {} + ($hexed_repl_cmd)" \o "\n"
  \o "        hexed_repl_case0 = {println hexed_result}" \o "\n"
  \o "        hexed_repl_case1 = {}" \o "\n"
  \o "        $$({hexed_repl_case} + (hexed_result == {}))" \o "\n"
  \o "    }" \o "\n"
  \o "    $loop" \o "\n"
  \o "    except = {}" \o "\n"
  \o "}" \o "\n"
  \o ""
=============================================================================
