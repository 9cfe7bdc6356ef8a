prop = "P09"
needs = "a differential IK with goals for several TCPs, of which not the last one misses its tolerance"
breaks = "checkTolerances() judges only the last TCP: a step is reported as solved although another goal is not met"
edits = [("VirtualRobot/IK/DifferentialIK.cpp", """            if (currentErrorPos > maxErrorPos  || currentErrorRot > maxErrorRot)
            {
                result = false;
                //break;
            }""", """            result = !(currentErrorPos > maxErrorPos || currentErrorRot > maxErrorRot);""")]
demo = r'''
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/IK/DifferentialIK.h>
#include <iostream>
using namespace VirtualRobot;
int main()
{
    RobotPtr r = RobotIO::createRobotFromString("<Robot Type='r' RootNode='a'><RobotNode name='a'><Joint type='revolute'/><Child name='b'/></RobotNode><RobotNode name='b'><Transform><Translation x='100' y='0' z='0'/></Transform><Joint type='revolute'/><Child name='c'/></RobotNode><RobotNode name='c'><Transform><Translation x='100' y='0' z='0'/></Transform></RobotNode></Robot>");
    std::vector<std::string> n;
    n.push_back("a");
    n.push_back("b");
    RobotNodeSetPtr ns = RobotNodeSet::createRobotNodeSet(r, "ns", n);
    DifferentialIK ik(ns);
    bool ok = true;
    for (int i = 0; i < 2; i++)
    {
        Eigen::Matrix4f m = r->getRobotNode("b")->getGlobalPose(), k = r->getRobotNode("c")->getGlobalPose();
        (i ? m : k)(2, 3) += 50;
        ik.setGoal(m, r->getRobotNode("b"), IKSolver::Position, 1.0f, 0.1f);
        ik.setGoal(k, r->getRobotNode("c"), IKSolver::Position, 1.0f, 0.1f);
        std::cout << ik.checkTolerances() << std::endl;
        ok = ok && !ik.checkTolerances();
    }
    return ok ? 0 : 1;
}
'''
