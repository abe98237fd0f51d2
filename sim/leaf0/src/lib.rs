simcore::leaf!(plonky::Tweedledee, plonky::Tweedledum);
