NOTE=("Seeded sampling of whole-system executions (real code on a simulated scheduler, clock, network, disk and randomness) judged by an independent reference model; "
      "a clean run is evidence over the explored executions, not proof. Trusts the simulator's model of Go scheduling, sockets, TLS, files and signals, and the reference model.")
