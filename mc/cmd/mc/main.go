// Command mc explores bounded spaces of grammars, inputs, histories and
// schedules exhaustively and checks the properties of /verif/properties.jsonl.
package main

import "verif/mc/eng"

func main() { eng.Main() }
