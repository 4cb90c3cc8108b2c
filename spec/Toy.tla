--------------------------------- MODULE Toy ---------------------------------
(* A curve of secp256k1's form with a prime number of points, fewer than the *)
(* field has elements: y^2 = x^3 + 7 over the integers modulo 43.            *)
EXTENDS Ec
ToyP == <<43>>
ToyN == <<31>>
ToyB == <<7>>
ToyG == <<<<2>>, <<12>>>>
=============================================================================
