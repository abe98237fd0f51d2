simcore::leaf!(plonky::Tweedledum, plonky::Tweedledee);
